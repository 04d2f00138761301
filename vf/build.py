"""Builds the extension module of the current working tree of the repository, outside of it.

The build is keyed by the content of everything that goes into it, so that any change of the C++ header or of the
Cython file gives a new build while checks run on the same tree share one.
"""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys

from .paths import BUILD, REPO

EXTENSIONS = (".pyx", ".pxd", ".pxi", ".h", ".hpp", ".c", ".cc", ".cpp")


class BuildError(Exception):
    pass


def native_inputs():
    out = []
    for top in ("deodr", "C++"):
        for root, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(EXTENSIONS):
                    out.append(os.path.join(root, f))
    for f in ("setup.py", "setup.cfg", "pyproject.toml"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return out


def content_key(files, extra=b""):
    h = hashlib.sha256(extra)
    for f in files:
        h.update(os.path.relpath(f, REPO).encode())
        with open(f, "rb") as fid:
            h.update(hashlib.sha256(fid.read()).digest())
    return h.hexdigest()[:20]


def _prune(prefix, keep):
    entries = [os.path.join(BUILD, e) for e in os.listdir(BUILD) if e.startswith(prefix)]
    entries.sort(key=os.path.getmtime, reverse=True)
    for e in entries[keep:]:
        shutil.rmtree(e, ignore_errors=True)


def build_extension():
    """Return the path of the extension module built from the current working tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        key = content_key(native_inputs())
        out = os.path.join(BUILD, "ext-" + key)
        found = glob.glob(os.path.join(out, "*.so"))
        if found:
            os.utime(out)
            return found[0]
        src = os.path.join(BUILD, "src-" + key)
        shutil.rmtree(src, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(src)
        try:
            ignore = shutil.ignore_patterns("*.so", "data", "__pycache__", "*.pyc", "examples")
            shutil.copytree(os.path.join(REPO, "deodr"), os.path.join(src, "deodr"), ignore=ignore)
            shutil.copytree(os.path.join(REPO, "C++"), os.path.join(src, "C++"), ignore=ignore)
            for f in ("setup.py", "setup.cfg", "pyproject.toml", "readme.md", "LICENSE"):
                p = os.path.join(REPO, f)
                if os.path.exists(p):
                    shutil.copy(p, src)
            env = dict(os.environ, CYTHON_FORCE_REGEN="1")
            r = subprocess.run(
                [sys.executable, "setup.py", "build_ext", "--build-lib", "lib_out", "--build-temp", "tmp_out", "--force"],
                cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
            )
            so = glob.glob(os.path.join(src, "lib_out", "deodr", "differentiable_renderer_cython*.so"))
            if r.returncode or not so:
                raise BuildError("the extension does not build:\n" + r.stdout[-4000:])
            tmp = out + ".tmp"
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            shutil.copy(so[0], tmp)
            os.rename(tmp, out)
        finally:
            shutil.rmtree(src, ignore_errors=True)
        _prune("ext-", 4)
        return glob.glob(os.path.join(out, "*.so"))[0]


def build_fuzzer(source, name):
    """Compile a libFuzzer + sanitizers target against the header of the current working tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock-fuzz"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        with open(source, "rb") as fid:
            key = content_key([p for p in native_inputs() if os.sep + "C++" + os.sep in p], fid.read())
        out = os.path.join(BUILD, "fuzz-" + key)
        exe = os.path.join(out, name)
        if os.path.exists(exe):
            os.utime(out)
            return exe
        os.makedirs(out, exist_ok=True)
        r = subprocess.run(
            ["clang++", "-std=c++17", "-O1", "-g", "-fno-omit-frame-pointer", "-w",
             "-fsanitize=fuzzer,address,undefined", "-fno-sanitize-recover=all",
             "-fno-sanitize=float-divide-by-zero",
             "-I", os.path.join(REPO, "C++"), source, "-o", exe + ".tmp"],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
        )
        if r.returncode:
            raise BuildError("the fuzz target does not build:\n" + r.stdout[-4000:])
        os.rename(exe + ".tmp", exe)
        _prune("fuzz-", 4)
        return exe
