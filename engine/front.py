"""Builds the exporter and runs it on a driver; returns a Program."""
import hashlib, os, subprocess, sys, tempfile, shutil
from interp import Program

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(ROOT, ".cache"))
LLVM = "/usr/lib/llvm-18"


class FrontError(Exception):
    pass


def exporter():
    src = os.path.join(ROOT, "analyzer", "carlx.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, "carlx-" + h)
    if os.path.exists(out):
        return out
    tmp = out + ".%d.tmp" % os.getpid()
    cmd = ["clang++-18", "-O1", "-std=c++17", "-fno-rtti", "-I%s/include" % LLVM, "-D__STDC_CONSTANT_MACROS",
           "-D__STDC_LIMIT_MACROS", "-D_GNU_SOURCE", "-w", src, "-o", tmp,
           "%s/lib/libclang-cpp.so.18.1" % LLVM, "%s/lib/libLLVM.so.18.1" % LLVM, "-Wl,-rpath,%s/lib" % LLVM]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise FrontError("cannot build the exporter:\n" + r.stderr[-3000:])
    os.replace(tmp, out)
    return out


def config_maps():
    """generated (git-ignored) configuration headers that are absent from the tree are
    supplied from the pinned configuration"""
    base = os.path.join(ROOT, "drivers", "config")
    out = []
    for d, _, fs in os.walk(base):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), base)
            if not os.path.exists(os.path.join(REPO, "src", rel)):
                out.append("--map=%s=%s" % (os.path.join(REPO, "src", rel), os.path.join(base, rel)))
    return sorted(out)


def load(driver, defines=(), root="^q_", keep="^$", stop=None, stopfile=None):
    """parse drivers/<driver> and return the Program"""
    exe = exporter()
    src = driver if os.path.isabs(driver) else os.path.join(ROOT, "drivers", driver)
    fd, out = tempfile.mkstemp(suffix=".json", prefix="carlx-")
    os.close(fd)
    os.unlink(out)
    try:
        cmd = [exe, "--root=" + root, "--keep=" + keep]
        if stop: cmd.append("--stop=" + stop)
        if stopfile: cmd.append("--stopfile=" + stopfile)
        cmd += config_maps() + [out, "--", src, "-std=c++17", "-w", "-ferror-limit=10", "-resource-dir", LLVM + "/lib/clang/18"]
        cmd += ["-isystem", REPO + "/src", "-isystem", "/usr/include/eigen3"] + ["-D" + d for d in defines]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(out):
            raise FrontError("driver %s does not parse against the current tree:\n%s" % (driver, r.stderr[-3000:]))
        return Program(out)
    finally:
        if os.path.exists(out):
            os.unlink(out)
