"""Harnesses over compiled code: the same scenario runs on the LLVM IR (symbolically) and on a native
sanitizer build of the same sources (concretely)."""
import concurrent.futures as cf
import os
import re
import shutil
import struct
import subprocess
from common import *
import common
import llir
import llsym
import llcpp
import pysym
import z3
from llsym import Thrown

BUILD = os.path.join(VERIF, "build")
CPP_INC = ["-I" + os.path.join(REPO, "flatdata-cpp", "include"), "-I" + os.path.join(REPO, "flatdata-cpp", "src")]
IRFLAGS = ["-std=c++17", "-O1", "-S", "-emit-llvm", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
           "-w", "-fno-discard-value-names"]
SAN = ["-fsanitize=address,shift,integer-divide-by-zero,null,unreachable,return,bounds,vla-bound", "-fno-sanitize-recover=all"]


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stderr[-4000:]))
    return r.stdout


LIMIT = re.compile(r"(?<![\w.])(1024\s*\*\s*1024\s*\*\s*32|32\s*\*\s*1024\s*\*\s*1024|33554432|1\s*<<\s*25|0x2000000)(?![\w.])", re.I)


def scaled_headers(into, limit):
    """the headers with the 32 MiB limit of write buffers replaced, so that flushes happen within the bounds"""
    src, dst = os.path.join(REPO, "flatdata-cpp", "include"), os.path.join(into, "include")
    for d, _, fs in os.walk(src):
        t = os.path.join(dst, os.path.relpath(d, src))
        os.makedirs(t, exist_ok=True)
        for f in fs:
            text = open(os.path.join(d, f), encoding="utf-8", errors="surrogateescape").read()
            open(os.path.join(t, f), "w", encoding="utf-8", errors="surrogateescape").write(LIMIT.sub("(%d)" % limit, text))
    return ["-I" + dst]


class Unit:
    """A translation unit, as IR module and as native executable."""

    def __init__(self, prop, name, files, main_file, flags=(), lang="cpp", intercepts=None, link=(), buffer_limit=None, ir_flags=(), native_flags=(), san=SAN):
        self.san = list(san)
        self.ir_flags, self.native_flags = list(ir_flags), list(native_flags)
        self.dir = os.path.join(BUILD, prop, name)
        self.buffer_limit = buffer_limit
        self.name = name
        self.files, self.main_file, self.flags, self.lang = files, main_file, list(flags), lang
        self.intercepts = intercepts or {}
        self.mod = None
        self.link = list(link)

    def jobs(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        for n, t in self.files.items():
            open(os.path.join(self.dir, n), "w").write(t)
        src = os.path.join(self.dir, self.main_file)
        self.ll = os.path.join(self.dir, "unit.ll")
        self.exe = os.path.join(self.dir, "unit.exe")
        inc = CPP_INC + ["-I" + self.dir]
        if self.buffer_limit is not None:
            inc = scaled_headers(self.dir, self.buffer_limit) + inc
        return [["clang++"] + IRFLAGS + self.ir_flags + inc + self.flags + [src, "-o", self.ll],
                ["clang++", "-std=c++17", "-O1", "-w", "-rdynamic"] + self.san + inc + self.flags + self.native_flags +
                [src, os.path.join(VERIF, "engine", "driver.cpp"), "-o", self.exe, "-ldl", "-lboost_filesystem", "-lboost_system"] + self.link]

    def load(self, rt=None):
        self.mod = llir.Module(open(self.ll).read())
        self.mod.fallback = rt

    def session(self, env):
        return SymSession(self, env) if env.symbolic else ConcSession(self, env)


def build_units(units):
    jobs = [j for u in units for j in u.jobs()]
    rt = os.path.join(units[0].dir, "rt.ll")
    jobs.append(["clang++"] + IRFLAGS + [os.path.join(VERIF, "engine", "rt.cpp"), "-o", rt])
    with cf.ThreadPoolExecutor(max_workers=8) as pool:
        for f in [pool.submit(sh, j) for j in jobs]:
            f.result()
    rt = llir.Module(open(rt).read())
    for u in units:
        u.load(rt)
    return units


class SymSession:
    def __init__(self, unit, env):
        self.m = llsym.Machine(unit.mod, env, unit.intercepts)
        self.env = env
        env.machine = self.m
        if not hasattr(env, "used"):
            env.used = set()
        self.m.run_ctors()

    def buf(self, data):
        """data: bytes / SymBytes / list of cells / int (uninitialised size) -> address"""
        if isinstance(data, int):
            o = self.m.alloc(data, "arg", "buffer")
        else:
            cells = data.cells() if hasattr(data, "cells") else list(data)
            cells = [pysym._int_to_cell(c) if isinstance(c, (pysym.SymInt, int)) else c for c in cells]
            o = self.m.alloc(len(cells), "arg", "buffer", list(cells))
        o.kind = "heap"
        return o.base

    def read(self, p, n):
        return pysym.SymBytes(self.m.load_bytes(llsym.to_arg(p), n))

    def write(self, p, data):
        self.m.store_bytes(llsym.to_arg(p), [pysym._int_to_cell(c) if isinstance(c, (pysym.SymInt, int)) else c for c in data])

    def call(self, fn, *args, **kw):
        m = self.m
        try:
            r = m.call("@" + fn, [llsym.to_arg(a) for a in args])
        except llsym._Unwind as u:
            m.caught = []
            raise Thrown(u.what)
        finally:
            self.env.used |= m.used
        if r is None:
            return None
        return llsym.to_int(r, kw.get("width", 64), kw.get("signed", False))

    def close(self):
        pass


class ConcSession:
    def __init__(self, unit, env):
        e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0",
                 UBSAN_OPTIONS="print_stacktrace=0")
        e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:detect_deadlocks=1"
        self.p = subprocess.Popen([unit.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e,
                                  cwd=unit.dir)

    def _send(self, b):
        try:
            self.p.stdin.write(b)
            self.p.stdin.flush()
        except BrokenPipeError:
            pass

    def _recv(self, n):
        b = self.p.stdout.read(n) if n else b""
        if len(b) != n:
            try:
                err = self.p.communicate(timeout=20)[1].decode("latin1")
            except Exception:
                err = ""
            m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|runtime error: [^\n]*|no function[^\n]*)", err)
            raise Violated("the program crashes: %s" % (m.group(1) if m else err[-300:] or "exit %s" % self.p.poll()))
        return b

    def buf(self, data):
        if isinstance(data, int):
            data = bytes([0xa5]) * data
        data = bytes(data)
        self._send(struct.pack("<QQ", ord("A"), len(data)) + data)
        return struct.unpack("<Q", self._recv(8))[0]

    def read(self, p, n):
        self._send(struct.pack("<QQQ", ord("R"), p, n))
        return self._recv(n)

    def write(self, p, data):
        data = bytes(data)
        self._send(struct.pack("<QQQ", ord("W"), p, len(data)) + data)

    def call(self, fn, *args, **kw):
        f = fn.encode()
        self._send(struct.pack("<QQ", ord("C"), len(f)) + f + struct.pack("<Q", len(args)) +
                   b"".join(struct.pack("<Q", int(a) & (2 ** 64 - 1)) for a in args))
        timeout = kw.get("timeout", 60)
        import select
        if not select.select([self.p.stdout], [], [], timeout)[0]:
            self.p.kill()
            raise Violated("the program does not terminate")
        st, r = struct.unpack("<QQ", self._recv(16))
        if st:
            raise Thrown("C++ exception")
        w = kw.get("width", 64)
        r &= (1 << w) - 1
        if kw.get("signed"):
            r = r - (1 << w) if r >> (w - 1) else r
        return r

    def close(self):
        try:
            self.p.stdin.close()
            self.p.stdout.close()
            self.p.stderr.close()
            self.p.wait(timeout=10)
        except Exception:
            self.p.kill()

    def __del__(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()


def throws(f):
    """1 when the compiled code signals an error, else 0"""
    try:
        f()
    except Thrown:
        return 1
    return 0
