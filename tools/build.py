#!/usr/bin/env python3
"""Content-addressed build of ADOL-C (from /repo's working tree) and of the harness programs.

Objects are keyed by the hash of (source text, every header text it may see, flags), so
the result depends only on the contents of the tree, never on time stamps.
"""
import hashlib, os, re, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("ADOLC_REPO", "/repo"))
CACHE = Path(os.environ.get("VERIF_BUILD", str(VERIF / ".build")))
CXX = "/usr/bin/g++"
BASE = ["-O1", "-g0", "-std=c++20", "-D_GLIBCXX_ASSERTIONS", "-w", "-pthread",
        "-DADOLC_ADOUBLE_STDCZERO=1", "-DADOLC_BITWORD_BITS=32", "-DADOLC_PATCHLEVEL=3",
        "-DADOLC_SHARED", "-DADOLC_SPARSE=1", "-DADOLC_SUBVERSION=7", "-DADOLC_VERSION=2"]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        b = p if isinstance(p, bytes) else str(p).encode()
        h.update(len(b).to_bytes(8, "little"))
        h.update(b)
    return h.hexdigest()[:32]


def lib_sources():
    """Sources named by the repository's own CMake target_sources(adolc ...) lists."""
    root = REPO / "ADOL-C"
    out = []
    for cm in sorted((root / "src").rglob("CMakeLists.txt")):
        txt = re.sub(r"#.*", "", cm.read_text())
        for m in re.finditer(r"target_sources\s*\(\s*adolc\s+PRIVATE([^)]*)\)", txt):
            for f in m.group(1).split():
                if f.endswith(".cpp"):
                    out.append(cm.parent / f)
    cm = root / "c_interface" / "CMakeLists.txt"
    for m in re.finditer(r"add_library\s*\(\s*ADOLCInterface\s+SHARED([^)]*)\)", cm.read_text()):
        for f in m.group(1).split():
            if f.endswith(".cpp"):
                out.append(cm.parent / f)
    return [p for p in out if p.exists()]


def settings_dir():
    src = REPO / "ADOL-C/include/adolc/internal/adolc_settings.h.in"
    t = src.read_text()
    for k, v in {"ADVBRANCH": "", "ADTL_REFCNT": "", "ADOLC_SPARSE": "#define ADOLC_SPARSE 1",
                 "USE_BOOST_POOL": "#define USE_BOOST_POOL 1"}.items():
        t = t.replace("@%s@" % k, v)
    d = CACHE / "inc" / sha(t)
    f = d / "adolc/internal/adolc_settings.h"
    if not f.exists():
        f.parent.mkdir(parents=True, exist_ok=True)
        tmp = f.with_suffix(".tmp%d" % os.getpid())
        tmp.write_text(t)
        tmp.rename(f)
    return d


def tree_hash():
    """Hash of everything a translation unit may include (headers, and .cpp files that
    are included by other .cpp files such as the interpreter templates)."""
    h = hashlib.sha256()
    root = REPO / "ADOL-C"
    for d in ("include", "src", "c_interface"):
        for p in sorted((root / d).rglob("*")):
            if p.suffix in (".h", ".hpp", ".in", ".inc", ".ipp"):
                h.update(str(p.relative_to(root)).encode() + b"\0" + p.read_bytes() + b"\0")
    return h.hexdigest()


_inc_re = re.compile(rb'^\s*#\s*include\s*[<"]([^">]+\.cpp)[">]', re.M)


def tu_text(p, seen=None):
    """Text of a source plus the text of any .cpp it includes."""
    seen = seen if seen is not None else set()
    if p in seen or not p.exists():
        return b""
    seen.add(p)
    b = p.read_bytes()
    out = [b]
    for inc in _inc_re.findall(b):
        name = inc.decode()
        for c in (p.parent / name, REPO / "ADOL-C/src" / name, REPO / "ADOL-C/include" / name,
                  VERIF / "harness" / name):
            if c.exists():
                out.append(tu_text(c, seen))
                break
    return b"\0".join(out)


def overlay(variant):
    """build with another value of a constant: {variant: (name, value[, header])}"""
    if variant not in VARIANTS:
        return None
    name, value, *where = VARIANTS[variant]
    hdr = where[0] if where else "adolc/internal/usrparms.h"
    t = (REPO / "ADOL-C/include" / hdr).read_text()
    t2, n = re.subn(r"(?m)^(\s*#\s*define\s+%s\s+)\S+" % name, r"\g<1>%s" % value, t)
    if n != 1:
        return None
    d = CACHE / "inc" / sha(t2)
    f = d / hdr
    if not f.exists():
        f.parent.mkdir(parents=True, exist_ok=True)
        tmp = f.with_suffix(".tmp%d" % os.getpid())
        tmp.write_text(t2)
        tmp.rename(f)
    return d


# blocks of tape files are read and written in chunks of at most this many bytes
# bit patterns are propagated in strips of at most this many words
VARIANTS = {"chunk": ("ADOLC_IO_CHUNK_SIZE", "32"),
            "strip": ("PQ_STRIPMINE_MAX", "1", "adolc/sparse/sparsedrivers.h")}


def incflags(variant=""):
    o = overlay(variant)
    return (["-I" + str(o)] if o else []) + ["-I" + str(REPO / "ADOL-C/include"), "-I" + str(settings_dir()),
            "-I" + str(REPO / "ADOL-C/src"), "-I" + str(REPO / "ADOL-C/c_interface"),
            "-I" + str(VERIF / "harness")]


class BuildError(Exception):
    pass


def compile_one(src, key, flags):
    obj = CACHE / "obj" / (key + ".o")
    if obj.exists():
        return obj
    obj.parent.mkdir(parents=True, exist_ok=True)
    tmp = obj.with_suffix(".tmp%d.o" % os.getpid())
    r = subprocess.run([CXX, *flags, "-c", str(src), "-o", str(tmp)], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("compile %s failed:\n%s" % (src, r.stderr[-4000:]))
    tmp.rename(obj)
    return obj


def build(harnesses, extra=(), variant="", libextra=None):
    """Build library + the given harness programs; returns {name: path}."""
    CACHE.mkdir(parents=True, exist_ok=True)
    lock = open(CACHE / "lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        inc = incflags(variant)
        flags = BASE + list(extra) + inc
        libflags = BASE + list(extra if libextra is None else libextra) + inc
        th = tree_hash()
        hh = b"".join(p.read_bytes() for p in sorted((VERIF / "harness").glob("*.h")))
        ov = variant if overlay(variant) else ""
        fkey = ov + " ".join(x for x in libflags if not x.startswith("-I"))
        hkey = ov + " ".join(x for x in flags if not x.startswith("-I"))
        jobs = []
        for s in lib_sources():
            jobs.append(("lib", s, sha("lib", s.relative_to(REPO), tu_text(s), th, fkey), libflags))
        for hname in harnesses:
            s = VERIF / "harness" / (hname + ".cpp")
            jobs.append((hname, s, sha("har", hname, tu_text(s), hh, th, hkey), flags))
        # biggest translation units first
        order = sorted(range(len(jobs)), key=lambda i: -len(tu_text(jobs[i][1])))
        objs = [None] * len(jobs)
        with ThreadPoolExecutor(8) as ex:
            futs = {i: ex.submit(compile_one, *jobs[i][1:]) for i in order}
            for i, f in futs.items():
                objs[i] = f.result()
        libobjs = [str(o) for j, o in zip(jobs, objs) if j[0] == "lib"]
        libkey = sha("ar", *libobjs)
        lib = CACHE / "lib" / (libkey + ".a")
        if not lib.exists():
            lib.parent.mkdir(parents=True, exist_ok=True)
            tmp = lib.with_suffix(".tmp%d.a" % os.getpid())
            subprocess.run(["ar", "qcs", str(tmp), *libobjs], check=True)
            tmp.rename(lib)
        out = {}
        for j, o in zip(jobs, objs):
            if j[0] == "lib":
                continue
            exe = CACHE / "bin" / ("%s-%s" % (j[0], sha(libkey, o, hkey)))
            if not exe.exists():
                exe.parent.mkdir(parents=True, exist_ok=True)
                tmp = exe.with_name(exe.name + ".tmp%d" % os.getpid())
                cmd = [CXX, *BASE, *extra, str(o), str(lib), "-o", str(tmp), "-l:libColPack.so.0", "-fopenmp"]
                r = subprocess.run(cmd, capture_output=True, text=True)
                if r.returncode:
                    raise BuildError("link %s failed:\n%s" % (j[0], r.stderr[-4000:]))
                tmp.rename(exe)
            out[j[0]] = exe
        return out
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


if __name__ == "__main__":
    for k, v in build(sys.argv[1:]).items():
        print(k, v)
