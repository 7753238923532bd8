"""Builds the fact extractor and turns /repo's current sources (plus the
analysis units under /verif/units) into program facts."""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CLANG = "clang++-18" if shutil.which("clang++-18") else "clang++"


class AnalysisError(Exception):
    """The analysis could not be carried out (never a verdict)."""


def tool():
    """Path of the extractor; built on demand."""
    src = os.path.join(VERIF, "tool", "vpx.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, "vpx-" + h)
    if os.path.exists(exe):
        return exe
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        cfg = "llvm-config-18" if shutil.which("llvm-config-18") else \
            "llvm-config"
        fl = subprocess.check_output([cfg, "--cppflags"],
                                     text=True).split()
        lib = subprocess.check_output([cfg, "--libdir"], text=True).strip()
        tmp = exe + ".%d" % os.getpid()
        r = subprocess.run([CLANG, "-O1", "-std=c++17", "-fno-rtti"] + fl +
                           [src, "-o", tmp, "-L" + lib, "-lLLVM-18"],
                           capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError("cannot build the extractor:\n" + r.stderr)
        os.rename(tmp, exe)
    return exe


BASE = ["-std=c++17", "-O2", "-g", "-Xclang", "-disable-llvm-passes",
        "-DVECMEM_DEBUG_MSG_LVL=0",
        "-DVECMEM_HAVE_BUILTIN_CLZL", "-DVECMEM_HAVE_PMR_MEMORY_RESOURCE",
        "-DVECMEM_SOURCE_DIR_LENGTH=6", "-DVECMEM_SUPPORT_POSIX_ATOMIC_REF",
        "-I" + os.path.join(VERIF, "include"),
        "-I" + os.path.join(REPO, "core", "include"),
        "-fno-jump-tables", "-Wno-everything"]


def compile_bc(jobs):
    """jobs: list of (source, out, extra flags). Returns list of outputs."""
    def one(j):
        s, o, ex = j
        cmd = [CLANG] + BASE + ex + ["-emit-llvm", "-c", s, "-o", o]
        r = subprocess.run(cmd, capture_output=True, text=True)
        return (s, r.returncode, r.stderr)
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    bad = [(s, e) for s, c, e in res if c]
    if bad:
        raise AnalysisError("cannot compile %s:\n%s" %
                            (bad[0][0], bad[0][1][-3000:]))
    return [j[1] for j in jobs]


def core_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "core", "src")):
        for f in sorted(fs):
            if f.endswith(".cpp"):
                out.append(os.path.join(d, f))
    return sorted(out)


class Work:
    """A scratch directory for one run."""

    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="run-", dir=BUILD)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


OPAQUE = os.path.join(VERIF, "tool", "opaque.txt")


def extract(work, name, bcs, entries, opaque=(), lower_atomic=False,
            std_opaque=True, dump=None, light=False):
    ef = os.path.join(work.dir, name + ".ent")
    of = os.path.join(work.dir, name + ".opq")
    with open(ef, "w") as f:
        f.write("\n".join(entries) + "\n")
    with open(of, "w") as f:
        if std_opaque:
            f.write(open(OPAQUE).read())
        f.write("\n".join(opaque) + "\n")
    out = os.path.join(work.dir, name + ".json")
    cmd = [tool(), "-o", out, "--opaque", of, "--entries", ef]
    if lower_atomic:
        cmd.append("--lower-atomic")
    if light:
        cmd.append("--light")
    if dump:
        cmd += ["--dump-ir", dump]
    r = subprocess.run(cmd + bcs, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("extractor failed on %s:\n%s" %
                            (name, r.stderr[-3000:]))
    from .ir import Program
    return Program(out)


CORE_ENTRIES = [
    r"^vecmem::[a-z_]*memory_resource::(do_allocate|do_deallocate|"
    r"do_is_equal|~?[a-z_]*memory_resource|operator=|add_[a-z_]*hook|"
    r"get_events)$",
    r"^vecmem::details::memory_resource_base::do_is_equal$",
    r"^vecmem::allocator::",
    r"^vecmem::details::binary_page_memory_resource_impl::superpage::"
    r"~?superpage$",
    r"^vecmem::memory_monitor::",
    r"^vecmem::copy::",
    r"^vecmem::details::is_aligned$",
]


def core(work, extra=(), dump=None, ndebug=True, opaque=(), entries=()):
    flags = ["-DVECMEM_HAVE_STD_ALIGNED_ALLOC"] + \
        (["-DNDEBUG"] if ndebug else []) + list(extra)
    jobs = []
    for i, s in enumerate(core_sources()):
        jobs.append((s, os.path.join(work.dir, "core%d.bc" % i), flags))
    if not jobs:
        raise AnalysisError("no core sources")
    bcs = compile_bc(jobs)
    return extract(work, "core", bcs, CORE_ENTRIES + list(entries), opaque,
                   dump=dump), len(jobs)


def unit(work, name, extra=(), entries=(r"^vp_",), opaque=(),
         lower_atomic=False, std_opaque=True, dump=None, with_core=False,
         light=True):
    src = os.path.join(VERIF, "units", name + ".cpp")
    o = os.path.join(work.dir, name + ".bc")
    jobs = [(src, o, ["-DNDEBUG", "-DVECMEM_HAVE_STD_ALIGNED_ALLOC"] +
             list(extra))]
    if with_core:
        for i, s in enumerate(core_sources()):
            jobs.append((s, os.path.join(work.dir, "%s_c%d.bc" % (name, i)),
                         ["-DNDEBUG", "-DVECMEM_HAVE_STD_ALIGNED_ALLOC"]))
    bcs = compile_bc(jobs)
    return extract(work, name, bcs, list(entries), opaque, lower_atomic,
                   std_opaque, dump, light)


def gpu(work, kind, extra=(), dump=None):
    """The CUDA, HIP or SYCL library, against declarations of the runtime."""
    stub, entry, ext, opaque = kind, "gpu.cpp", ".cpp", []
    flags = ["-DNDEBUG", "-DVECMEM_HAVE_STD_ALIGNED_ALLOC",
             "-fno-access-control", "-fstrict-vtable-pointers",
             "-DV_" + kind.upper(),
             "-I" + os.path.join(REPO, kind, "include")]
    if kind == "sycl":
        stub, entry, ext = "syclrt", "gpu_sycl.cpp", ".sycl"
        flags += ["-xc++", "-DVECMEM_HAVE_SYCL_MEMSET"]
        opaque = ["^std::vector::"]
    flags += ["-I" + os.path.join(VERIF, "units", "stub", stub)] + list(extra)
    src = [os.path.join(VERIF, "units", entry)]
    for d, _, fs in sorted(os.walk(os.path.join(REPO, kind, "src"))):
        src += [os.path.join(d, f) for f in sorted(fs)
                if f.endswith(ext) and "polyfill" not in f]
    if len(src) < 2:
        raise AnalysisError("no sources of vecmem::" + kind)
    bcs = compile_bc([(s, os.path.join(work.dir, "%s%d.bc" % (kind, i)),
                       flags) for i, s in enumerate(src)])
    return extract(work, kind, bcs, [r"^vp_"], opaque, dump=dump), len(src)
