"""Builds drivers and the Python extension from /repo's working tree.

Objects are cached under /verif/.build/cache by the content of every source and
header that can reach them, so a changed tree is always recompiled and two
checks on the same tree share the work.
"""
import concurrent.futures as cf
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
HARNESS = os.path.join(VERIF, "harness")
CACHE = os.path.join(VERIF, ".build", "cache")
VENVPY = "/opt/vp/venv/bin/python"
FLAGS = ["-std=gnu++17", "-O1", "-DNDEBUG", "-w", "-fpermissive", "-fPIC"]
LIBS = ["-lboost_filesystem", "-lboost_system", "-lboost_timer", "-larmadillo"]


class BuildError(Exception):
    pass


def _read(path):
    with open(path, "rb") as f:
        return f.read()


def _headers():
    hs = sorted(glob.glob(os.path.join(SRC, "include", "**", "*"), recursive=True)
                + glob.glob(os.path.join(SRC, "*.h*"))
                + glob.glob(os.path.join(HARNESS, "*.hpp")))
    return [h for h in hs if os.path.isfile(h)]


def _key(source, flags, headers):
    h = hashlib.sha256()
    h.update("\0".join(flags).encode())
    for p in [source] + headers:
        h.update(os.path.basename(p).encode())
        h.update(_read(p))
    return h.hexdigest()[:32]


def _store(make, dest):
    """Run make(tmp path) and move the result to dest atomically."""
    os.makedirs(os.path.dirname(dest), exist_ok=True)
    fd, tmp = tempfile.mkstemp(dir=os.path.dirname(dest), suffix=".tmp")
    os.close(fd)
    try:
        make(tmp)
        os.chmod(tmp, 0o755)
        os.replace(tmp, dest)
    finally:
        if os.path.exists(tmp):
            os.remove(tmp)


def compile_one(source, extra=()):
    flags = FLAGS + ["-I" + os.path.join(SRC, "include"), "-I" + SRC, "-I" + HARNESS] + list(extra)
    obj = os.path.join(CACHE, _key(source, flags, _headers()) + ".o")
    if not os.path.exists(obj):
        def make(tmp):
            r = subprocess.run(["g++"] + flags + ["-c", source, "-o", tmp], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise BuildError("compiling %s failed:\n%s" % (source, r.stdout[-4000:]))
        _store(make, obj)
    return obj


def compile_all(sources):
    """sources: list of (path, extra flags)"""
    with cf.ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda s: compile_one(s[0], s[1]), sources))


def _link(objs, extra, suffix):
    h = hashlib.sha256("\0".join(objs + extra).encode()).hexdigest()[:32]
    exe = os.path.join(CACHE, h + suffix)
    if not os.path.exists(exe):
        def make(tmp):
            r = subprocess.run(["g++", "-o", tmp] + objs + extra + LIBS, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise BuildError("linking failed:\n" + r.stdout[-4000:])
        _store(make, exe)
    return exe


def repo_sources(exclude=("boost_python_wrapper.cpp",)):
    return [s for s in sorted(glob.glob(os.path.join(SRC, "*.cpp"))) if os.path.basename(s) not in exclude]


def driver(name, exclude=(), extra_sources=(), extra_flags=()):
    """Build harness/<name>.cpp against the library sources and return the executable."""
    srcs = [(s, []) for s in repo_sources(("boost_python_wrapper.cpp",) + tuple(exclude))]
    srcs += [(os.path.join(HARNESS, name + ".cpp"), list(extra_flags))]
    srcs += list(extra_sources)
    return _link(compile_all(srcs), [], "." + name)


def python_package():
    """Build the extension and lay out an importable copy of the package.

    Returns the directory to put on PYTHONPATH."""
    cfg = subprocess.run([VENVPY, "-c", "import sysconfig as s;print(s.get_paths()['include']);"
                          "print(s.get_config_var('EXT_SUFFIX'));import sys;print('%d%d'%sys.version_info[:2]);import numpy;print(numpy.get_include())"],
                         stdout=subprocess.PIPE, text=True, check=True).stdout.split("\n")
    inc, suffix, ver = cfg[0], cfg[1], cfg[2]
    srcs = [(s, []) for s in repo_sources()]
    srcs.append((os.path.join(SRC, "boost_python_wrapper.cpp"), ["-I" + inc, "-I" + cfg[3]]))
    so = _link(compile_all(srcs), ["-shared", "-lboost_python" + ver], suffix)
    h = hashlib.sha256(so.encode())
    pys = [p for p in sorted(glob.glob(os.path.join(SRC, "carmcmc", "**", "*.py"), recursive=True))]
    for p in pys:
        h.update(p.encode())
        h.update(_read(p))
    root = os.path.join(CACHE, "py-" + h.hexdigest()[:32])
    if not os.path.isdir(root):
        os.makedirs(CACHE, exist_ok=True)
        tmp = tempfile.mkdtemp(dir=CACHE)
        for p in pys:
            dst = os.path.join(tmp, os.path.relpath(p, SRC))
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copyfile(p, dst)
        shutil.copyfile(so, os.path.join(tmp, "carmcmc", "_carmcmc" + suffix))
        try:
            os.rename(tmp, root)
        except OSError:
            shutil.rmtree(tmp)
    return root


def prune(keep_bytes=600 << 20):
    """Drop the oldest cache entries when the cache grows."""
    if not os.path.isdir(CACHE):
        return
    items = []
    for e in os.scandir(CACHE):
        try:
            size = e.stat().st_size if e.is_file() else 1 << 20
            items.append((e.stat().st_mtime, size, e.path, e.is_dir()))
        except OSError:
            pass
    total = sum(i[1] for i in items)
    for mtime, size, path, isdir in sorted(items):
        if total <= keep_bytes:
            break
        try:
            if isdir:
                shutil.rmtree(path, ignore_errors=True)
            else:
                os.remove(path)
        except OSError:
            pass
        total -= size


if __name__ == "__main__":
    print(driver(sys.argv[1]))
