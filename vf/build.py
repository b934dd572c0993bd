"""Compiles harness translation units against /repo's current sources: LLVM IR for the executor, native code for replay."""
import hashlib
import os
import re
import subprocess
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HJ_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
CLANG = "/usr/bin/clang++-18"
OPT = "/usr/bin/opt-18"
INC = ["-I" + os.path.join(HERE, "harness"), "-I" + os.path.join(REPO, "include"), "-I/usr/include/eigen3"]
IRFLAGS = ["-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-ffp-contract=off", "-fno-builtin-memcpy",
           "-include", os.path.join(HERE, "harness", "prelude.h"), "-DEIGEN_DONT_VECTORIZE", "-w"]
PASSES = "always-inline,function(sroa,simplifycfg),globaldce"


ASM_COMMENT = re.compile(r'^\s+(?:tail )?call void asm sideeffect "(?:#[^"]*)?", "[^"=]*"\([^%@]*\).*\n', re.M)


class CompileError(Exception):
    pass


_inputs_digest = None


def inputs_digest():
    """Digest of everything a harness build reads: /repo's sources and the harness sources."""
    global _inputs_digest
    if _inputs_digest is None:
        h = hashlib.sha256()
        for top in (os.path.join(REPO, "include"), os.path.join(REPO, "python"), os.path.join(HERE, "harness")):
            for d, ds, fs in sorted(os.walk(top)):
                ds.sort()
                for f in sorted(fs):
                    if f.endswith((".h", ".hpp", ".cpp", ".cc", ".inl", ".ipp")):
                        p = os.path.join(d, f)
                        h.update(p.encode())
                        with open(p, "rb") as fh:
                            h.update(fh.read())
        _inputs_digest = h.hexdigest()
    return _inputs_digest


def run(cmd, timeout=600, env=None):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace",
                       env=env)
    if r.returncode:
        raise CompileError(" ".join(cmd) + "\n" + r.stdout[-3000:])
    return r.stdout


RUN = os.environ.setdefault("HJ_RUN", "%d.%d" % (os.getpid(), time.time_ns()))


def compiled(out, make):
    """Makes out unless it exists; a failure is remembered for this run."""
    if os.path.exists(out):
        return
    err = out + ".err"
    try:
        with open(err) as f:
            if f.readline() == RUN + "\n":
                raise CompileError(f.read())
    except FileNotFoundError:
        pass
    t = tmp(out)
    try:
        make(t)
    except CompileError as e:
        with open(t, "w") as f:
            f.write("%s\n%s" % (RUN, e))
        os.rename(t, err)
        raise
    os.rename(t, out)


def _path(kind, key, ext):
    os.makedirs(BUILD, exist_ok=True)
    k = hashlib.sha256((inputs_digest() + kind + repr(key)).encode()).hexdigest()[:24]
    return os.path.join(BUILD, k + ext)


def tmp(path):
    return "%s.%d.%d.tmp" % (path, os.getpid(), threading.get_ident())


def ir_text(src, defs=(), extra=(), passes=PASSES):
    """LLVM IR of harness/<src> (textual), regenerated whenever /repo or the harness changed."""
    out = _path("ir", (src, tuple(defs), tuple(extra), passes), ".ll")

    def make(t):
        run([CLANG] + IRFLAGS + ["-D" + d for d in defs] + list(extra) + INC +
            ["-S", "-emit-llvm", "-o", t, os.path.join(HERE, "harness", src)])
        run([OPT, "-S", "-passes=" + passes, t, "-o", t + "2"])
        os.rename(t + "2", t)

    compiled(out, make)
    with open(out) as f:
        # inline assembly that is nothing but a comment is dropped (it may still be a compiler barrier, which has no meaning here)
        return ASM_COMMENT.sub("", f.read())


def native(src, defs=(), extra=(), mode="plain", driver="driver.cpp"):
    """Native executable of the same harness: mode plain (g++ -O2), asan, or O0 (for valgrind)."""
    out = _path("native" + mode, (src, tuple(defs), tuple(extra), driver), ".exe")

    def make(t):
        flags = {"plain": ["-O2"], "asan": ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"],
                 "O0": ["-O0", "-g"], "tsan": ["-O0", "-g", "-fsanitize=thread"], "nb": ["-O1", "-fno-builtin", "-ffp-contract=off"]}[mode]
        run(["g++", "-std=c++17", "-w", "-rdynamic"] + flags + ["-D" + d for d in defs] + list(extra) + INC +
            ["-o", t, os.path.join(HERE, "harness", src), os.path.join(HERE, "harness", driver), "-ldl"])

    compiled(out, make)
    return out
