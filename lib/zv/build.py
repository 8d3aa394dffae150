"""Builds what the checks need from the current working tree of /repo.

Everything lands in /verif/build/<kind>-<hash>, where the hash covers every source that
can influence the result, so that a change in /repo is always rebuilt and an unchanged
tree is not.  A file lock makes concurrent checks share one build.
"""
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("Z5_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
PY = "/opt/z5env/bin/python"
NB = "/opt/z5env/lib/python3.12/site-packages/nanobind"

CODEC_DEFS = ["-DWITH_BLOSC", "-DWITH_BZIP2", "-DWITH_LIBDEFLATE", "-DWITH_LZ4",
              "-DWITH_XZ", "-DWITH_ZLIB", "-DWITH_ZSTD"]
CODEC_LIBS = ["-lblosc", "-lz", "-ldeflate", "-lbz2", "-llzma", "-llz4", "-lzstd"]


class BuildError(Exception):
    pass


def _files(*roots):
    res = []
    for root in roots:
        if os.path.isfile(root):
            res.append(root)
            continue
        for d, dirs, files in os.walk(root):
            dirs.sort()
            if "__pycache__" in d:
                continue
            res += [os.path.join(d, f) for f in files]
    return sorted(res)


def _hash(files, *extra):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    for e in extra:
        h.update(repr(e).encode())
    return h.hexdigest()[:16]


class _Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def _run(cmd, cwd=None):
    env = dict(os.environ, CCACHE_DISABLE="1", LANG="C.UTF-8")
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def _compile(cxx, flags, rest):
    """Compile with cxx; what only the other compiler accepts is still built."""
    try:
        return _run([cxx] + flags + rest)
    except BuildError as e:
        other = "g++" if cxx == "clang++" else "clang++"
        try:
            return _run([other] + [f for f in flags if f != "-shared-libasan" and "no-sanitize=" not in f and "coverage" not in f] + rest)
        except BuildError:
            raise e


def _prune(prefix, keep, n=3):
    """Keep only the n most recent builds of a kind."""
    ds = sorted((d for d in glob.glob(os.path.join(BUILD, prefix + "-*")) if not d.endswith(".lock")),
                key=os.path.getmtime)
    for d in ds[:-n]:
        if d != keep and os.path.isdir(d):
            shutil.rmtree(d, ignore_errors=True)


def _finish(tmp, dest):
    if os.path.isdir(dest):
        shutil.rmtree(tmp, ignore_errors=True)
    else:
        os.rename(tmp, dest)
    return dest


def nanobind_lib(cxx, flags):
    key = _hash([NB + "/src/nb_combined.cpp", NB + "/src/nb_internals.h", NB + "/include/nanobind/nanobind.h"], cxx, flags)
    dest = os.path.join(BUILD, "nb-" + key)
    obj = os.path.join(dest, "nb.o")
    if os.path.exists(obj):
        return obj
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="tmp-nb-", dir=BUILD)
    _run([cxx] + flags + ["-fno-strict-aliasing", "-I" + NB + "/ext/robin_map/include",
                          "-c", NB + "/src/nb_combined.cpp", "-o", tmp + "/nb.o"])
    _finish(tmp, dest)
    return obj


def ext(mode="fast"):
    """The z5py package; returns the directory to put on sys.path.

    fast: clang++ -O0 style build, quick to compile.  native: the project's own flags (g++ -O2).
    s3: as fast, with the S3 backend, compiled against the stand-in for the AWS SDK.
    """
    s3 = mode == "s3"
    if mode in ("fast", "s3"):
        cxx, opt = "clang++", ["-O0"]
    elif mode == "native":
        cxx, opt = "g++", ["-O2", "-g1"]
    elif mode == "asan":
        cxx, opt = "clang++", ["-O1", "-g1", "-fsanitize=address", "-shared-libasan", "-fno-omit-frame-pointer"]
    else:
        raise ValueError(mode)
    srcs = sorted(glob.glob(REPO + "/src/python/lib/*.cxx"))
    flags = opt + ["-std=c++20", "-fPIC", "-fvisibility=hidden", "-DNDEBUG", "-w", "-DLIBDEFLATE_DLL",
                   "-I" + REPO + "/include", "-I/usr/include/python3.12", "-I" + NB + "/include"]
    fake = os.path.join(VERIF, "cpp", "fakeaws")
    if s3:
        flags += ["-DWITH_S3", "-I" + fake]
        srcs.append(os.path.join(fake, "control.cc"))
    key = _hash(_files(REPO + "/include", REPO + "/src/python/lib", REPO + "/src/python/module") + (_files(fake) if s3 else []), cxx, flags, "v2")
    dest = os.path.join(BUILD, "ext-%s-%s" % (mode, key))
    if os.path.isdir(dest):
        return dest
    with _Lock("ext-" + mode):
        if os.path.isdir(dest):
            return dest
        t0 = time.time()
        tmp = tempfile.mkdtemp(prefix="tmp-ext-", dir=BUILD)
        try:
            def one(src):
                o = os.path.join(tmp, os.path.basename(src) + ".o")
                _compile(cxx, flags + CODEC_DEFS, ["-c", src, "-o", o])
                return o
            # largest translation unit first
            srcs.sort(key=lambda s: -os.path.getsize(s))
            with ThreadPoolExecutor(8) as ex:
                fut_nb = ex.submit(nanobind_lib, cxx, [f for f in flags if not f.startswith("-I" + REPO) and f not in ("-DWITH_S3", "-I" + fake)])
                objs = list(ex.map(one, srcs))
                objs.append(fut_nb.result())
            pkg = os.path.join(tmp, "z5py")
            shutil.copytree(REPO + "/src/python/module/z5py", pkg, ignore=shutil.ignore_patterns("__pycache__", "*.so"))
            so = os.path.join(pkg, "_z5py.cpython-312-x86_64-linux-gnu.so")
            _run([cxx, "-shared"] + opt + objs + ["-o", so] + CODEC_LIBS + ["-lpthread"])
            for o in glob.glob(tmp + "/*.o"):
                os.remove(o)
            txt = open(REPO + "/include/z5/z5.hxx").read()
            ver = [re.search(r"Z5_VERSION_%s\s+(\d+)" % p, txt) for p in ("MAJOR", "MINOR", "PATCH")]
            ver = [v.group(1) if v else "0" for v in ver]
            with open(os.path.join(pkg, "_version.py"), "w") as f:
                f.write('__version__ = "%s"\n__version_info__ = (%s)\n' % (".".join(ver), ", ".join(ver)))
            _finish(tmp, dest)
        except BaseException:
            shutil.rmtree(tmp, ignore_errors=True)
            raise
        _prune("ext-" + mode, dest)
        print("[build] extension (%s) built in %.0f s" % (mode, time.time() - t0), file=sys.stderr, flush=True)
    return dest


SAN = {
    "plain": ["-O1"],
    "asan": ["-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
             "-fno-sanitize=alignment,vptr,function", "-fno-omit-frame-pointer"],
    "tsan": ["-O0", "-g1", "-fsanitize=thread"],
    # as asan, and reports the coverage of each case (see Guide in cpp/pbt.hpp)
    "cov": ["-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
            "-fno-sanitize=alignment,vptr,function", "-fno-omit-frame-pointer",
            "-fsanitize-coverage=inline-8bit-counters", "-DPBT_COVERAGE",
            "-fsanitize-coverage-ignorelist=" + os.path.join(VERIF, "cpp", "coverage_ignore.txt")],
}


def cpp_object(name, san, cxx, defs, dry=False):
    """A translation unit that several harnesses link (compiled without optimisation: it is large)."""
    src = os.path.join(VERIF, "cpp", name + ".cc")
    flags = ["-O0" if f in ("-O1",) else f for f in SAN[san]] + ["-std=c++20", "-w", "-DLIBDEFLATE_DLL", "-I" + REPO + "/include", "-I" + os.path.join(VERIF, "cpp")] + list(defs)
    if san == "plain":
        flags.append("-DNDEBUG")
    key = _hash(_files(REPO + "/include") + [src] + sorted(glob.glob(os.path.join(VERIF, "cpp", "*.hpp"))), cxx, flags, "o1")
    dest = os.path.join(BUILD, "obj-%s-%s-%s" % (name, san, key))
    obj = os.path.join(dest, name + ".o")
    if dry:
        return dest
    if os.path.exists(obj):
        return obj
    with _Lock("obj-%s-%s" % (name, san)):
        if os.path.exists(obj):
            return obj
        tmp = tempfile.mkdtemp(prefix="tmp-obj-", dir=BUILD)
        try:
            _compile(cxx, flags + CODEC_DEFS, ["-c", src, "-o", os.path.join(tmp, name + ".o")])
            _finish(tmp, dest)
        except BaseException:
            shutil.rmtree(tmp, ignore_errors=True)
            raise
        _prune("obj-%s-%s" % (name, san), dest)
    return obj


def cpp(name, san="plain", cxx="clang++", defs=()):
    """A C++ harness from /verif/cpp/<name>.cc; returns the path of the binary."""
    src = os.path.join(VERIF, "cpp", name + ".cc")
    flags = SAN[san] + ["-std=c++20", "-w", "-DLIBDEFLATE_DLL", "-I" + REPO + "/include",
                        "-I" + os.path.join(VERIF, "cpp")] + list(defs)
    if san == "plain":
        flags.append("-DNDEBUG")
    # "// parts: a b" in the first line: translation units shared with other harnesses
    m = re.match(r"// parts:([^\n]*)", open(src).read())
    parts = [cpp_object(x, san, cxx, defs, dry=True) for x in (m.group(1).split() if m else [])]
    extra = _files(os.path.join(VERIF, "cpp", "fakeaws")) if "-DWITH_S3" in flags else []
    key = _hash(_files(REPO + "/include") + _files(src) + sorted(glob.glob(os.path.join(VERIF, "cpp", "*.hpp"))) + extra,
                cxx, flags, "v1", parts)
    dest = os.path.join(BUILD, "cpp-%s-%s-%s" % (name, san, key))
    binp = os.path.join(dest, name)
    if os.path.exists(binp):
        return binp
    with _Lock("cpp-%s-%s-%s" % (name, san, key)):
        if os.path.exists(binp):
            return binp
        t0 = time.time()
        tmp = tempfile.mkdtemp(prefix="tmp-cpp-", dir=BUILD)
        try:
            o = os.path.join(tmp, name + ".o")
            with ThreadPoolExecutor(4) as ex:
                futs = [ex.submit(cpp_object, x, san, cxx, defs) for x in (m.group(1).split() if m else [])]
                _compile(cxx, flags + CODEC_DEFS, ["-c", src, "-o", o])
                objs = [f.result() for f in futs]
            _compile(cxx, flags, [o] + objs + ["-o", os.path.join(tmp, name)] + CODEC_LIBS + ["-lpthread"])
            os.remove(o)
            _finish(tmp, dest)
        except BaseException:
            shutil.rmtree(tmp, ignore_errors=True)
            raise
        _prune("cpp-%s-%s" % (name, san), dest)
        print("[build] %s (%s) built in %.0f s" % (name, san, time.time() - t0), file=sys.stderr, flush=True)
    return binp


def shim():
    """The fault injection library (LD_PRELOAD)."""
    src = os.path.join(VERIF, "cpp", "faultshim.c")
    dest = os.path.join(BUILD, "shim-" + _hash([src], "s1"))
    lib = os.path.join(dest, "faultshim.so")
    if not os.path.exists(lib):
        with _Lock("shim"):
            if not os.path.exists(lib):
                os.makedirs(BUILD, exist_ok=True)
                tmp = tempfile.mkdtemp(prefix="tmp-shim-", dir=BUILD)
                _run(["gcc", "-shared", "-fPIC", "-O1", "-w", src, "-o", tmp + "/faultshim.so", "-ldl"])
                _finish(tmp, dest)
    return lib


def cpp_many(specs):
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda s: cpp(**s), specs))
