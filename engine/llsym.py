"""Symbolic execution of LLVM IR on top of pysym's path explorer.

Values: Python ints (unsigned, modulo 2^width), z3 bit-vectors, z3 booleans for i1, lists for
aggregates. Memory: byte-granular objects at concrete addresses separated by unmapped gaps."""
import bisect
import re
import z3
import llir
from llir import T, Reg, Global, ConstExpr, Undef, size_of, offsets, ity
import pysym
from pysym import Counterexample, Inconclusive

Z = z3


class Thrown(Exception):
    """C++ exception / Rust panic leaving the called function"""

    def __init__(self, what):
        Exception.__init__(self, what)
        self.what = what


class _Unwind(Exception):
    def __init__(self, exc, what, tinfo=None):
        self.exc, self.what, self.tinfo = exc, what, tinfo


class Obj:
    __slots__ = ("base", "size", "cells", "name", "const", "alive", "kind")

    def __init__(self, base, size, cells, name, const=False, kind="heap"):
        self.base, self.size, self.cells, self.name, self.const, self.kind = base, size, cells, name, const, kind
        self.alive = True


def bv(v, w):
    """z3 term of width w"""
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


def simp(t):
    """z3 term -> int when it is a constant"""
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_long()
    if z3.is_true(t):
        return 1
    if z3.is_false(t):
        return 0
    return t


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


class Machine:
    """One execution (= one path) of code of a module."""
    MAX_STEPS = 3000000

    def __init__(self, mod, ex, intercepts=None, stats=None):
        self.mod, self.ex = mod, ex
        self.objs, self.bases = [], []
        self.next_addr = {"global": 0x100000, "heap": 0x10000000, "stack": 0x7f0000000000, "arg": 0x20000000,
                          "fn": 0x1000}
        self.gaddr = {}
        self.fn_at = {}
        self.steps = 0
        self.undef = 0
        self.handlers = {}
        self.depth = 0
        self.intercepts = dict(BASE)
        self.intercepts.update(intercepts or {})
        self.sinks = {}
        self.atomic = False
        self.at_atomic = None          # called before atomic updates with address, expected and new value
        self.caught = []
        self.stats = stats
        self.ctors_done = False
        self.used = set()

    # ---------------------------------------------------------------- memory
    def alloc(self, size, kind="heap", name="", cells=None, const=False):
        base = self.next_addr[kind]
        self.next_addr[kind] = (base + size + 64 + 63) // 64 * 64
        o = Obj(base, size, cells if cells is not None else [None] * size, name, const, kind)
        i = bisect.bisect(self.bases, base)
        self.bases.insert(i, base)
        self.objs.insert(i, o)
        return o

    def find(self, addr, n, write):
        i = bisect.bisect_right(self.bases, addr) - 1
        o = self.objs[i] if i >= 0 else None
        if o is None or addr + n > o.base + o.size or addr < o.base:
            near = "" if o is None else " (%d bytes past the start of %s of %d bytes)" % (addr - o.base, o.name or o.kind, o.size)
            self.bad("memory access outside any object: %d bytes at 0x%x%s" % (n, addr, near))
        if not o.alive:
            self.bad("use after free of %s" % (o.name or o.kind))
        if write and o.const:
            self.bad("write to constant %s" % o.name)
        return o, addr - o.base

    def bad(self, why):
        """undefined behaviour on this path: a violation for the current path condition"""
        self.ex.stats.obligations += 1
        self.ex.prove(False, why)

    def fork_value(self, t, w):
        """concretises a term by forking over its feasible values"""
        if isinstance(t, int):
            return t
        t = simp(bv(t, w))
        if isinstance(t, int):
            return t
        ex = self.ex
        n = 0
        while True:
            if ex.pos < len(ex.trace) and len(ex.trace[ex.pos]) == 3:
                guess = ex.trace[ex.pos][2]
                d = ex.trace[ex.pos][0]
                ex.pos += 1
            else:
                if ex._check() != z3.sat:
                    raise pysym.PathAbort()
                guess = ex.solver.model().eval(t, model_completion=True).as_long()
                other = ex._check(t != z3.BitVecVal(guess, w)) == z3.sat
                ex.trace.append([True, other, guess])
                ex.pos += 1
                d = True
            eq = t == z3.BitVecVal(guess, w)
            ex.pc_add(eq if d else z3.Not(eq))
            if d:
                return guess
            n += 1
            if n > ex.concretise_limit:
                raise Inconclusive("concretisation limit")

    def addr(self, p):
        return p if isinstance(p, int) else self.fork_value(p, 64)

    def table(self, addr, n):
        """a byte of a constant table at a symbolic index, None if it is no such access"""
        addr = simp(bv(addr, 64))
        if isinstance(addr, int) or self.ex._check() != z3.sat:
            return None
        guess = self.ex.solver.model().eval(addr, model_completion=True).as_long()
        i = bisect.bisect_right(self.bases, guess) - 1
        o = self.objs[i] if i >= 0 else None
        if o is None or not o.const or o.size > 512 or guess >= o.base + o.size or not all(type(c) is int for c in o.cells):
            return None
        off = addr - z3.BitVecVal(o.base, 64)
        if self.ex._check(z3.UGE(off, o.size)) != z3.unsat:
            return None
        r, start = z3.BitVecVal(o.cells[-1], 8), o.size - 1
        for j in range(o.size - 2, -1, -1):
            if o.cells[j] != o.cells[j + 1]:
                r = z3.If(z3.ULE(off, j), z3.BitVecVal(o.cells[j], 8), r)
        return simp(r)

    def cell(self, o, i):
        c = o.cells[i]
        if c is None:
            self.undef += 1
            c = z3.BitVec("undef_%d" % self.undef, 8)
            o.cells[i] = c
        elif type(c) is tuple:
            t, k = c
            c = simp(z3.Extract(8 * k + 7, 8 * k, t))
        return c

    def load_bytes(self, addr, n):
        addr = self.addr(addr)
        if n == 0:
            return []
        o, off = self.find(addr, n, False)
        return [self.cell(o, off + i) for i in range(n)]

    def store_bytes(self, addr, cells):
        addr = self.addr(addr)
        if not cells:
            return
        o, off = self.find(addr, len(cells), True)
        o.cells[off:off + len(cells)] = cells

    def raw_copy(self, dst, src, n):
        dst, src = self.addr(dst), self.addr(src)
        if n == 0:
            return
        o, off = self.find(src, n, False)
        cells = o.cells[off:off + n]
        p, poff = self.find(dst, n, True)
        p.cells[poff:poff + n] = cells

    def load(self, t, addr):
        k = t.kind
        if k in ("i", "ptr", "f"):
            w = 64 if k == "ptr" else t.n
            n = (w + 7) // 8
            if not isinstance(addr, int):
                r = self.table(addr, n) if k == "i" and n == 1 and w == 8 else None
                if r is not None:
                    return r
                addr = self.addr(addr)
            o, off = self.find(addr, n, False)
            cs = o.cells[off:off + n]
            c0 = cs[0]
            if type(c0) is tuple and c0[1] == 0 and c0[0].size() == 8 * n and \
                    all(type(c) is tuple and c[1] == i and c[0] is c0[0] for i, c in enumerate(cs)):
                v = c0[0]
            elif all(type(c) is int for c in cs):
                v = 0
                for i, c in enumerate(cs):
                    v |= c << (8 * i)
            elif c0 is None and n > 1 and all(c is None for c in cs):
                self.undef += 1
                v = z3.BitVec("undef_%d" % self.undef, 8 * n)
                o.cells[off:off + n] = [(v, i) for i in range(n)]
            else:
                cs = [self.cell(o, off + i) for i in range(n)]
                if all(type(c) is int for c in cs):
                    v = 0
                    for i, c in enumerate(cs):
                        v |= c << (8 * i)
                else:
                    v = z3.Concat(*[bv(c, 8) for c in reversed(cs)]) if n > 1 else cs[0]
            if w % 8:
                v = v & ((1 << w) - 1) if isinstance(v, int) else simp(z3.Extract(w - 1, 0, v))
            if w == 1 and not isinstance(v, int):
                v = v == 1
            if k == "f" and not isinstance(v, int):
                raise Inconclusive("symbolic float")
            return v
        if k == "st":
            offs = offsets(t)
            return [self.load(e, self.addr(addr) + offs[i]) for i, e in enumerate(t.elems)]
        if k in ("arr", "vec"):
            s = size_of(t.elems)
            return [self.load(t.elems, self.addr(addr) + i * s) for i in range(t.n)]
        raise Inconclusive("load %r" % t)

    def store(self, t, v, addr):
        k = t.kind
        if k in ("i", "ptr", "f"):
            w = 64 if k == "ptr" else t.n
            n = (w + 7) // 8
            addr = self.addr(addr)
            o, off = self.find(addr, n, True)
            if isinstance(v, int):
                for i in range(n):
                    o.cells[off + i] = (v >> (8 * i)) & 255
                return
            v = bv(v, w)
            if w != 8 * n:
                v = z3.ZeroExt(8 * n - w, v)
            if n == 1:
                o.cells[off] = simp(v)
            else:
                for i in range(n):
                    o.cells[off + i] = (v, i)
            return
        if k == "st":
            offs = offsets(t)
            for i, e in enumerate(t.elems):
                self.store(e, v[i], self.addr(addr) + offs[i])
            return
        if k in ("arr", "vec"):
            s = size_of(t.elems)
            for i in range(t.n):
                self.store(t.elems, v[i], self.addr(addr) + i * s)
            return
        raise Inconclusive("store %r" % t)

    def cstr(self, p, limit=4096):
        out = []
        p = self.addr(p)
        while True:
            c = self.load_bytes(p + len(out), 1)[0]
            if not isinstance(c, int):
                if self.ex.branch(c == 0):
                    return out
            elif c == 0:
                return out
            out.append(c)
            if len(out) > limit:
                raise Inconclusive("unbounded string")

    # ---------------------------------------------------------------- globals
    def global_addr(self, name):
        if name in self.gaddr:
            return self.gaddr[name]
        name0 = name
        while name in self.mod.aliases:
            name = self.mod.aliases[name]
        if name in self.mod.functions or name in self.mod.declares or name[1:] in self.intercepts:
            a = self.next_addr["fn"]
            self.next_addr["fn"] += 16
            self.fn_at[a] = name
            self.gaddr[name] = self.gaddr[name0] = a
            return a
        if name not in self.mod.globals:
            if self.mod.fallback is not None and name in self.mod.fallback.functions:
                a = self.next_addr["fn"]
                self.next_addr["fn"] += 16
                self.fn_at[a] = name
                self.gaddr[name] = a
                return a
            raise Inconclusive("unknown global %s" % name)
        t, init, const = self.mod.global_init(name)
        try:
            size = size_of(t)
        except llir.IRError:
            size = 8
        o = self.alloc(max(size, 1), "global", name, [1] if name == "@__libc_single_threaded" else None, False)
        self.gaddr[name] = self.gaddr[name0] = o.base
        if init is not None:
            o.cells = [0] * max(size, 1)
            self.init_store(t, init, o.base)
        o.const = const and init is not None
        if init is None:
            for pat, fn in GLOBALS:
                if pat.match(name):
                    o.cells = [0] * max(size, 1)
                    fn(self, o)
        return o.base

    def init_store(self, t, v, addr):
        if t.kind == "arr" and t.elems.kind == "i" and t.elems.n == 8 and isinstance(v, list) and \
                all(type(x) is int for x in v):
            o, off = self.find(addr, max(len(v), 1) if v else 0, True) if v else (None, 0)
            if v:
                o.cells[off:off + len(v)] = v
            return
        if t.kind == "arr":
            s = size_of(t.elems)
            if isinstance(v, Undef):
                return
            for i, x in enumerate(v):
                self.init_store(t.elems, x, addr + i * s)
            return
        if t.kind == "st":
            if isinstance(v, Undef):
                return
            offs = offsets(t)
            for i, e in enumerate(t.elems):
                self.init_store(e, v[i], addr + offs[i])
            return
        if isinstance(v, Undef):
            return
        self.store(t, self.const(v), addr)

    def const(self, v):
        if type(v) is int:
            return v
        if isinstance(v, Global):
            return self.global_addr(v.name)
        if isinstance(v, Undef):
            return self.fresh(v.t)
        if isinstance(v, list):
            return [self.const(x) for x in v]
        if isinstance(v, ConstExpr):
            if v.op == "gep":
                st, args = v.args
                return self.gep(st, self.const(args[0][1]), [(t, self.const(x)) for t, x in args[1:]])
            if v.op == "cast":
                op, ft, x, tt = v.args
                return self.cast(op, ft, self.const(x), tt)
            if v.op == "bin":
                op, t, a, b = v.args
                return self.binop(op, t.n, self.const(a), self.const(b))
            if v.op == "float":
                return self.float_bits(v.args[0])
        raise Inconclusive("constant %r" % (v,))

    @staticmethod
    def float_bits(s):
        import struct
        if s.startswith("0x"):
            return int(s, 16)
        return struct.unpack("<Q", struct.pack("<d", float(s)))[0]

    def fresh(self, t):
        if t.kind == "st":
            return [self.fresh(e) for e in t.elems]
        if t.kind in ("arr", "vec"):
            return [self.fresh(t.elems) for _ in range(t.n)]
        self.undef += 1
        w = 64 if t.kind == "ptr" else t.n
        if w == 1:
            return z3.Bool("undef_%d" % self.undef)
        return z3.BitVec("undef_%d" % self.undef, w)

    # ---------------------------------------------------------------- arithmetic
    def gep(self, st, base, idx):
        t = st
        off = 0
        sym = None
        for k, (it, iv) in enumerate(idx):
            if k == 0:
                scale = size_of(t)
            elif t.kind == "st":
                off += offsets(t)[iv]
                t = t.elems[iv]
                continue
            elif t.kind in ("arr", "vec"):
                t = t.elems
                scale = size_of(t)
            else:
                raise Inconclusive("gep into %r" % t)
            if isinstance(iv, int):
                off += sgn(iv, it.n) * scale
            else:
                x = bv(iv, it.n)
                if it.n < 64:
                    x = z3.SignExt(64 - it.n, x)
                x = x * z3.BitVecVal(scale & (2 ** 64 - 1), 64) if scale != 1 else x
                sym = x if sym is None else sym + x
        if sym is None and isinstance(base, int):
            return (base + off) & (2 ** 64 - 1)
        r = bv(base, 64)
        if sym is not None:
            r = r + sym
        if off:
            r = r + z3.BitVecVal(off & (2 ** 64 - 1), 64)
        return simp(r)

    def binop(self, op, w, a, b):
        m = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            if op == "add":
                return (a + b) & m
            if op == "sub":
                return (a - b) & m
            if op == "mul":
                return (a * b) & m
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op in ("shl", "lshr", "ashr"):
                if b >= w:
                    return self.fresh(ity(w))
                if op == "shl":
                    return (a << b) & m
                if op == "lshr":
                    return a >> b
                return (sgn(a, w) >> b) & m
            if op in ("udiv", "urem", "sdiv", "srem"):
                if b == 0:
                    self.bad("division by zero")
                if op == "udiv":
                    return a // b
                if op == "urem":
                    return a % b
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return (q if op == "sdiv" else x - q * y) & m
        if w == 1:
            x = a if not isinstance(a, int) else z3.BoolVal(bool(a))
            y = b if not isinstance(b, int) else z3.BoolVal(bool(b))
            x = x if z3.is_bool(x) else x == 1
            y = y if z3.is_bool(y) else y == 1
            if op == "and":
                return simp(z3.And(x, y))
            if op == "or":
                return simp(z3.Or(x, y))
            if op in ("xor", "add", "sub"):
                return simp(z3.Xor(x, y))
            if op == "mul":
                return simp(z3.And(x, y))
            return a
        # frequent identities
        if isinstance(b, int):
            if b == 0 and op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"):
                return a
            if op == "and" and b == 0:
                return 0
            if op == "and" and b == m:
                return a
        x, y = bv(a, w), bv(b, w)
        if op == "add":
            return simp(x + y)
        if op == "sub":
            return simp(x - y)
        if op == "mul":
            return simp(x * y)
        if op == "and":
            return simp(x & y)
        if op == "or":
            return simp(x | y)
        if op == "xor":
            return simp(x ^ y)
        if op in ("shl", "lshr", "ashr"):
            if isinstance(b, int):
                if b >= w:
                    return self.fresh(ity(w))
            else:
                self.shift_check(y, w)
            if op == "shl":
                return simp(x << y)
            if op == "lshr":
                return simp(z3.LShR(x, y))
            return simp(x >> y)
        if not isinstance(b, int):
            if self.truth(y == 0):
                self.bad("division by zero")
        elif b == 0:
            self.bad("division by zero")
        if op == "udiv":
            return simp(z3.UDiv(x, y))
        if op == "urem":
            return simp(z3.URem(x, y))
        if op == "sdiv":
            return simp(x / y)
        return simp(z3.SRem(x, y))

    def shift_check(self, y, w):
        """over-wide shifts give poison; the compiler only speculates them, a fresh value is used"""

    def icmp(self, pred, t, a, b):
        w = 64 if t.kind == "ptr" else t.n
        if isinstance(a, int) and isinstance(b, int):
            if pred == "eq":
                return int(a == b)
            if pred == "ne":
                return int(a != b)
            if pred[0] == "s":
                a, b = sgn(a, w), sgn(b, w)
            return int({"gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[pred[1:]])
        if w == 1:
            x = bv(a, 1) if not isinstance(a, int) else z3.BitVecVal(a, 1)
            y = bv(b, 1) if not isinstance(b, int) else z3.BitVecVal(b, 1)
        else:
            x, y = bv(a, w), bv(b, w)
        if pred == "eq":
            r = x == y
        elif pred == "ne":
            r = x != y
        elif pred == "ugt":
            r = z3.UGT(x, y)
        elif pred == "uge":
            r = z3.UGE(x, y)
        elif pred == "ult":
            r = z3.ULT(x, y)
        elif pred == "ule":
            r = z3.ULE(x, y)
        elif pred == "sgt":
            r = x > y
        elif pred == "sge":
            r = x >= y
        elif pred == "slt":
            r = x < y
        else:
            r = x <= y
        return simp(r)

    def cast(self, op, ft, v, tt):
        if ft.kind == "vec":
            if op == "bitcast":
                return self.bitcast(ft, v, tt)
            return [self.cast(op, ft.elems, x, tt.elems) for x in v]
        fw = 64 if ft.kind == "ptr" else ft.n
        tw = 64 if tt.kind == "ptr" else tt.n
        if op in ("fptoui", "fptosi", "uitofp", "sitofp", "fpext", "fptrunc"):
            return self.fcast(op, ft, v, tt)
        if op == "bitcast" and tt.kind == "vec":
            return self.bitcast(ft, v, tt)
        if op == "sext":
            if isinstance(v, int):
                return sgn(v, fw) & ((1 << tw) - 1)
            if z3.is_bool(v):
                return z3.If(v, z3.BitVecVal((1 << tw) - 1, tw), z3.BitVecVal(0, tw))
            return simp(z3.SignExt(tw - fw, v))
        if isinstance(v, int):
            return v & ((1 << tw) - 1)
        if tw == fw:
            return v
        if tw < fw:
            r = simp(z3.Extract(tw - 1, 0, bv(v, fw)))
            if tw == 1 and not isinstance(r, int):
                return simp(r == 1)
            return r
        if z3.is_bool(v):
            return bv(v, tw)
        return simp(z3.ZeroExt(tw - fw, v))

    def bitcast(self, ft, v, tt):
        if any(t.kind == "vec" and t.elems.kind == "i" and t.elems.n % 8 for t in (ft, tt)):
            return self.bitcast_bits(ft, v, tt)
        tmp = self.alloc(size_of(ft), "stack", "bitcast")
        self.store(ft, v, tmp.base)
        r = self.load(tt, tmp.base)
        tmp.alive = False
        return r

    def bitcast_bits(self, ft, v, tt):
        """vectors of elements which are not bytes are packed: the first element has the lowest bits"""
        xs, w = (v, ft.elems.n) if ft.kind == "vec" else ([v], ft.n)
        if all(isinstance(x, int) for x in xs):
            whole = sum((x & ((1 << w) - 1)) << (w * i) for i, x in enumerate(xs))
        else:
            whole = z3.Concat(*reversed([bv(x, w) for x in xs])) if len(xs) > 1 else bv(xs[0], w)
        if tt.kind != "vec":
            return whole if isinstance(whole, int) else simp(whole)
        u = tt.elems.n
        if isinstance(whole, int):
            return [(whole >> (u * i)) & ((1 << u) - 1) for i in range(tt.n)]
        r = [simp(z3.Extract(u * i + u - 1, u * i, whole)) for i in range(tt.n)]
        return [x if isinstance(x, int) or u > 1 else simp(x == 1) for x in r]

    def fcast(self, op, ft, v, tt):
        import struct
        def dec(x, w):
            return struct.unpack("<d" if w == 64 else "<f", struct.pack("<Q" if w == 64 else "<I", x))[0]
        def enc(x, w):
            return struct.unpack("<Q" if w == 64 else "<I", struct.pack("<d" if w == 64 else "<f", x))[0]
        if not isinstance(v, int):
            raise Inconclusive("symbolic floating point conversion")
        if op == "uitofp":
            return enc(float(v), tt.n)
        if op == "sitofp":
            return enc(float(sgn(v, ft.n)), tt.n)
        if op in ("fpext", "fptrunc"):
            return enc(dec(v, ft.n), tt.n)
        return int(dec(v, ft.n)) & ((1 << tt.n) - 1)

    def truth(self, c):
        """decides an i1 by forking"""
        if isinstance(c, int):
            return bool(c & 1)
        if z3.is_bv(c):
            c = c == 1
        c = simp(c)
        if isinstance(c, int):
            return bool(c)
        return self.ex.branch(c)

    def select(self, c, a, b, t):
        if isinstance(c, int):
            return a if c & 1 else b
        if z3.is_bv(c):
            c = c == 1
        if isinstance(a, list) or t.kind in ("st", "arr"):
            return a if self.ex.branch(c) else b
        if t.kind == "ptr" and (isinstance(a, int) and isinstance(b, int)):
            return a if a == b else (a if self.truth(c) else b)
        w = 64 if t.kind == "ptr" else t.n
        if w == 1:
            x = z3.BoolVal(bool(a)) if isinstance(a, int) else (a if z3.is_bool(a) else a == 1)
            y = z3.BoolVal(bool(b)) if isinstance(b, int) else (b if z3.is_bool(b) else b == 1)
            return simp(z3.If(c, x, y))
        return simp(z3.If(c, bv(a, w), bv(b, w)))

    # ---------------------------------------------------------------- execution
    def run_ctors(self):
        if self.ctors_done:
            return
        self.ctors_done = True
        if "@llvm.global_ctors" in self.mod.globals:
            _, init, _ = self.mod.global_init("@llvm.global_ctors")
            for e in init or []:
                self.call(e[1].name, [])

    def call(self, name, args):
        """runs a function by name"""
        while name in self.mod.aliases:
            name = self.mod.aliases[name]
        h = self.handlers.get(name, 0)
        if h == 0:
            h = self.intercepts.get(name[1:])
            if h is None:
                for prefix, f in INTRINSICS:
                    if name.startswith(prefix):
                        h = f
                        break
            self.handlers[name] = h
        if h is not None:
            return h(self, args, name)
        f = self.mod.functions.get(name)
        if f is None and self.mod.fallback is not None:
            f = self.mod.fallback.functions.get(name)
        if f is None:
            for rx, hh in PATTERNS:
                if rx.search(name):
                    return hh(self, args, name)
            raise Inconclusive("call of external function %s" % name)
        self.used.add(name)
        return self.exec(f.parse(), args)

    def exec(self, f, args):
        self.depth += 1
        if self.depth > 200:
            raise Inconclusive("recursion depth in %s" % f.name)
        regs = {}
        stack = []
        for (nm, t, byv), v in zip(f.params, args):
            if byv is not None:
                o = self.alloc(size_of(byv), "stack", "byval")
                self.raw_copy(o.base, v, size_of(byv))
                stack.append(o)
                v = o.base
            regs[nm] = v
        const = self.const

        def val(x):
            if type(x) is Reg:
                return regs[x.name]
            if type(x) is int:
                return x
            if type(x) is list:
                return [val(e) for e in x]
            return const(x)

        try:
            blocks = f.blocks
            prev, cur = None, f.entry
            while True:
                code = blocks[cur]
                # phis first, in parallel
                i = 0
                if code[0].op == "phi":
                    new = []
                    while code[i].op == "phi":
                        new.append((code[i].dst, val(code[i].a[0][prev])))
                        i += 1
                    for d, v in new:
                        regs[d] = v
                nxt = None
                n = len(code)
                self.steps += n
                if self.steps > self.MAX_STEPS:
                    raise Inconclusive("step limit in %s" % f.name)
                while i < n:
                    ins = code[i]
                    i += 1
                    op, a = ins.op, ins.a
                    if op == "bin":
                        if ins.t.kind == "vec":
                            x, y = val(a[1]), val(a[2])
                            r = [self.binop(a[0], ins.t.elems.n, p, q) for p, q in zip(x, y)]
                        else:
                            r = self.binop(a[0], ins.t.n, val(a[1]), val(a[2]))
                    elif op == "load":
                        r = self.load(ins.t, val(a[0]))
                    elif op == "store":
                        self.store(ins.t, val(a[0]), val(a[1]))
                        continue
                    elif op == "gep":
                        r = self.gep(a[0], val(a[1]), [(t, val(v)) for t, v in a[2]])
                    elif op == "icmp":
                        if ins.t.kind == "vec":
                            r = [self.icmp(a[0], ins.t.elems, p, q) for p, q in zip(val(a[1]), val(a[2]))]
                        else:
                            r = self.icmp(a[0], ins.t, val(a[1]), val(a[2]))
                    elif op == "cast":
                        r = self.cast(a[0], a[1], val(a[2]), ins.t)
                    elif op == "select":
                        if a[3].kind == "vec":
                            r = [self.select(c, x, y, ins.t.elems) for c, x, y in zip(val(a[0]), val(a[1]), val(a[2]))]
                        else:
                            r = self.select(val(a[0]), val(a[1]), val(a[2]), ins.t)
                    elif op == "call":
                        callee = a[0]
                        args2 = [(t, val(v) if v is not None else None, bvt) for t, v, bvt in a[1]]
                        if isinstance(callee, Global):
                            name = callee.name
                        else:
                            p = self.addr(val(callee))
                            name = self.fn_at.get(p)
                            if name is None:
                                self.bad("call through an invalid function pointer 0x%x" % p)
                        argv = []
                        tmp = []
                        for t, v, bvt in args2:
                            argv.append(v)
                        try:
                            r = self.call(name, argv)
                        except _Unwind as u:
                            if a[3] is None:
                                raise
                            self.caught.append(u)
                            nxt = a[3]
                            break
                        if a[2] is not None:
                            nxt = a[2]
                            if ins.dst is not None:
                                regs[ins.dst] = r
                            break
                    elif op == "jmp":
                        nxt = a[0]
                        break
                    elif op == "br":
                        nxt = a[1] if self.truth(val(a[0])) else a[2]
                        break
                    elif op == "switch":
                        v = val(a[0])
                        if isinstance(v, int):
                            nxt = a[1]
                            for c, lab in a[2]:
                                if c == v:
                                    nxt = lab
                                    break
                        else:
                            nxt = None
                            for c, lab in a[2]:
                                if self.truth(bv(v, ins.t.n) == z3.BitVecVal(c, ins.t.n)):
                                    nxt = lab
                                    break
                            if nxt is None:
                                nxt = a[1]
                        break
                    elif op == "ret":
                        return None if a[0] is None else val(a[0])
                    elif op == "alloca":
                        cnt = val(a[0])
                        if not isinstance(cnt, int):
                            cnt = self.fork_value(cnt, 64)
                        o = self.alloc(size_of(ins.t) * cnt, "stack", f.name + ins.dst)
                        stack.append(o)
                        r = o.base
                    elif op == "extractvalue":
                        r = val(a[0])
                        for k in a[1]:
                            r = r[k]
                    elif op == "insertvalue":
                        r = self.insert(val(a[0]), val(a[1]), a[2])
                    elif op == "freeze":
                        r = val(a[0])
                    elif op == "unreachable":
                        self.bad("undefined behaviour: unreachable code reached in %s" % f.name)
                    elif op == "landingpad":
                        u = self.caught[-1]
                        sel = 0
                        for w, cv in a[1]:
                            if w == "catch":
                                tv = val(cv)
                                if tv == 0:
                                    sel = 1
                                elif self.matches(u, tv):
                                    sel = self.typeid(tv)
                                if sel:
                                    break
                            else:
                                sel = 0xFFFFFFFF    # filter: reaching it ends in unexpected()/terminate
                        r = [u.exc, sel]
                    elif op == "resume":
                        u = self.caught.pop()
                        raise u
                    elif op == "aload":
                        self.atomic = True
                        r = self.load(ins.t, val(a[0]))
                        self.atomic = False
                    elif op == "astore":
                        self.atomic = True
                        self.store(ins.t, val(a[0]), val(a[1]))
                        self.atomic = False
                        continue
                    elif op == "atomicrmw":
                        if self.at_atomic:
                            self.at_atomic(val(a[1]), None, val(a[2]) if a[0] == "xchg" else None)
                        self.atomic = True
                        old = self.load(ins.t, val(a[1]))
                        v = val(a[2])
                        w = 64 if ins.t.kind == "ptr" else ins.t.n
                        if a[0] == "xchg":
                            nv = v
                        elif a[0] in ("add", "sub", "and", "or", "xor"):
                            nv = self.binop(a[0], w, old, v)
                        else:
                            raise Inconclusive("atomicrmw " + a[0])
                        self.store(ins.t, nv, val(a[1]))
                        self.atomic = False
                        r = old
                    elif op == "cmpxchg":
                        if self.at_atomic:
                            self.at_atomic(val(a[0]), val(a[1]), val(a[2]))
                        self.atomic = True
                        old = self.load(ins.t, val(a[0]))
                        ok = self.icmp("eq", ins.t, old, val(a[1]))
                        if self.truth(ok):
                            self.store(ins.t, val(a[2]), val(a[0]))
                            r = [old, 1]
                        else:
                            r = [old, 0]
                        self.atomic = False
                    elif op == "extractelement":
                        r = val(a[0])[self.fork_value(val(a[1]), 64) if not isinstance(val(a[1]), int) else val(a[1])]
                    elif op == "insertelement":
                        r = list(val(a[0]))
                        r[val(a[2])] = val(a[1])
                    elif op == "shufflevector":
                        both = list(val(a[0])) + list(val(a[1]))
                        mask = a[2]
                        r = [both[k] if isinstance(k, int) else both[0] for k in mask]
                    elif op == "fbin" or op == "fcmp" or op == "fneg":
                        r = self.fop(ins, [val(x) for x in a if not isinstance(x, (str, list))])
                    elif op == "nop":
                        continue
                    elif op == "asm":
                        if '""' in a[0]:
                            continue
                        raise Inconclusive("inline assembly: %s" % a[0])
                    else:
                        raise Inconclusive("instruction %s %s" % (op, a))
                    if ins.dst is not None:
                        regs[ins.dst] = r
                prev, cur = cur, nxt
        finally:
            self.depth -= 1
            for o in stack:
                o.alive = False
                o.name = o.name + " (dead stack object)"

    def fop(self, ins, v):
        import struct
        if not all(isinstance(x, int) for x in v):
            raise Inconclusive("symbolic floating point")
        w = ins.t.n
        f = [struct.unpack("<d" if w == 64 else "<f", struct.pack("<Q" if w == 64 else "<I", x))[0] for x in v]
        if ins.op == "fcmp":
            p = ins.a[0]
            a, b = f
            return int({"oeq": a == b, "one": a != b, "ogt": a > b, "oge": a >= b, "olt": a < b, "ole": a <= b,
                        "ueq": a == b, "une": a != b, "ugt": a > b, "uge": a >= b, "ult": a < b, "ule": a <= b}[p])
        if ins.op == "fneg":
            r = -f[0]
        else:
            a, b = f
            r = {"fadd": lambda: a + b, "fsub": lambda: a - b, "fmul": lambda: a * b, "fdiv": lambda: a / b}[ins.a[0]]()
        return struct.unpack("<Q" if w == 64 else "<I", struct.pack("<d" if w == 64 else "<f", r))[0]

    def insert(self, agg, v, idx):
        agg = list(agg)
        if len(idx) == 1:
            agg[idx[0]] = v
        else:
            agg[idx[0]] = self.insert(agg[idx[0]], v, idx[1:])
        return agg

    # ---------------------------------------------------------------- exceptions
    def typeid(self, tv):
        return (tv & 0x7fffffff) or 1

    def matches(self, u, tv):
        """type-info match including single/multiple inheritance of std exceptions"""
        if u.tinfo is None:
            return self.fn_name_of_tinfo(tv) in ("@_ZTISt9exception",) or u.what.startswith("std:") and \
                self.fn_name_of_tinfo(tv) in STD_BASES.get(u.what[4:], ())
        if u.tinfo == tv:
            return True
        n = self.fn_name_of_tinfo(u.tinfo)
        m = self.fn_name_of_tinfo(tv)
        return m in STD_BASES.get(n, ())

    def fn_name_of_tinfo(self, addr):
        for k, v in self.gaddr.items():
            if v == addr:
                return k
        return "?"

    def throw(self, what):
        raise _Unwind(self.alloc(64, "heap", "exception").base, what)


_RT = ("@_ZTISt13runtime_error", "@_ZTISt9exception")
_LE = ("@_ZTISt11logic_error", "@_ZTISt9exception")
STD_BASES = {
    "@_ZTISt13runtime_error": _RT, "@_ZTISt11logic_error": _LE,
    "@_ZTISt12length_error": ("@_ZTISt12length_error",) + _LE,
    "@_ZTISt12out_of_range": ("@_ZTISt12out_of_range",) + _LE,
    "@_ZTISt16invalid_argument": ("@_ZTISt16invalid_argument",) + _LE,
    "@_ZTISt14overflow_error": ("@_ZTISt14overflow_error",) + _RT,
    "@_ZTISt9bad_alloc": ("@_ZTISt9exception",),
    "length_error": ("@_ZTISt12length_error",) + _LE, "logic_error": _LE,
    "out_of_range": ("@_ZTISt12out_of_range",) + _LE,
}


# -------------------------------------------------------------------- library model

BASE = {}
INTRINSICS = []
GLOBALS = []
PATTERNS = []


def lib(*names):
    def deco(f):
        for n in names:
            BASE[n] = f
        return f
    return deco


def intr(*prefixes):
    def deco(f):
        for p in prefixes:
            INTRINSICS.append(("@llvm." + p, f))
        return f
    return deco


@lib("malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t",
     "__rust_alloc", "__rust_realloc_dummy")
def _malloc(m, a, name):
    n = m.fork_value(a[0], 64)
    if n > 1 << 20:
        if name in ("@malloc", "@__rust_alloc"):
            return 0
        if n >= 1 << 63:
            m.throw("std:bad_alloc")
        raise Inconclusive("allocation of %d bytes" % n)
    return m.alloc(n).base


@lib("calloc", "__rust_alloc_zeroed")
def _calloc(m, a, name):
    n = m.fork_value(a[0], 64)
    if name == "@calloc":
        n *= m.fork_value(a[1], 64)
    if n > 1 << 20:
        return 0
    return m.alloc(n, cells=[0] * n).base


@lib("realloc", "__rust_realloc")
def _realloc(m, a, name):
    n = m.fork_value(a[-1] if name == "@__rust_realloc" else a[1], 64)
    p = m.addr(a[0])
    if n > 1 << 20:
        return 0
    o = m.alloc(n)
    if p:
        old, off = m.find(p, 0 if name == "@realloc" else 0, False)
        k = min(old.size, n)
        o.cells[:k] = old.cells[:k]
        old.alive = False
    return o.base


@lib("free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t",
     "__rust_dealloc")
def _free(m, a, name):
    p = m.addr(a[0])
    if p == 0:
        return None
    o, off = m.find(p, 0, False)
    if off or o.kind != "heap":
        m.bad("free of a pointer not obtained from an allocation")
    o.alive = False


def _cmp(m, a, b, n, eq_only):
    n = m.fork_value(n, 64)
    x, y = m.load_bytes(a, n), m.load_bytes(b, n)
    if all(isinstance(c, int) for c in x + y):
        r = (x > y) - (x < y)
        return r & 0xffffffff
    # first difference decides
    res = z3.BitVecVal(0, 32)
    for c, d in reversed(list(zip(x, y))):
        c, d = bv(c, 8), bv(d, 8)
        if eq_only:
            res = z3.If(c == d, res, z3.BitVecVal(1, 32))
        else:
            res = z3.If(c == d, res, z3.ZeroExt(24, c) - z3.ZeroExt(24, d))
    return simp(res)


@lib("memcmp")
def _memcmp(m, a, name):
    return _cmp(m, a[0], a[1], a[2], False)


@lib("bcmp")
def _bcmp(m, a, name):
    return _cmp(m, a[0], a[1], a[2], True)


@lib("strcmp")
def _strcmp(m, a, name):
    x, y = m.cstr(a[0]), m.cstr(a[1])
    for i in range(max(len(x), len(y))):
        c = x[i] if i < len(x) else 0
        d = y[i] if i < len(y) else 0
        if isinstance(c, int) and isinstance(d, int):
            if c != d:
                return (c - d) & 0xffffffff
            continue
        if not m.truth(bv(c, 8) == bv(d, 8)):
            return simp(z3.ZeroExt(24, bv(c, 8)) - z3.ZeroExt(24, bv(d, 8)))
    return 0


@lib("strlen")
def _strlen(m, a, name):
    return len(m.cstr(a[0]))


@lib("strnlen")
def _strnlen(m, a, name):
    n = a[1]
    p = m.addr(a[0])
    i = 0
    while True:
        if isinstance(n, int):
            if i >= n:
                return n
        elif m.truth(simp(z3.ULE(bv(n, 64), bv(i, 64)))):
            return i
        c = m.load_bytes(p + i, 1)[0]
        if isinstance(c, int):
            if c == 0:
                return i
        elif m.truth(c == 0):
            return i
        i += 1


@lib("memchr")
def _memchr(m, a, name):
    n = m.fork_value(a[2], 64)
    p = m.addr(a[0])
    v = bv(a[1], 32)
    v = simp(z3.Extract(7, 0, v))
    for i in range(n):
        c = m.load_bytes(p + i, 1)[0]
        if m.truth(simp(bv(c, 8) == bv(v, 8))):
            return p + i
    return 0


@lib("memcpy", "memmove")
def _memcpy_f(m, a, name):
    m.raw_copy(a[0], a[1], m.fork_value(a[2], 64))
    return a[0]


@lib("memset")
def _memset_f(m, a, name):
    n = m.fork_value(a[2], 64)
    v = a[1]
    c = v & 255 if isinstance(v, int) else simp(z3.Extract(7, 0, v))
    m.store_bytes(a[0], [c] * n)
    return a[0]


@intr("memcpy", "memmove")
def _memcpy(m, a, name):
    m.raw_copy(a[0], a[1], m.fork_value(a[2], 64))


@intr("memset")
def _memset(m, a, name):
    n = m.fork_value(a[2], 64)
    m.store_bytes(a[0], [a[1]] * n)


@intr("lifetime", "dbg", "assume", "experimental.noalias", "donothing", "invariant", "prefetch", "sideeffect",
      "stackrestore", "pseudoprobe", "var.annotation")
def _nop(m, a, name):
    if name.startswith("@llvm.invariant.start"):
        return 0
    return None


@intr("stacksave")
def _stacksave(m, a, name):
    return 0


@intr("launder", "strip.invariant", "expect", "threadlocal.address", "ssa.copy")
def _ident(m, a, name):
    return a[0]


@intr("ptrmask")
def _ptrmask(m, a, name):
    return m.binop("and", 64, a[0], a[1])


@intr("objectsize")
def _objsize(m, a, name):
    return (1 << 64) - 1 if not (isinstance(a[1], int) and a[1]) else 0


@intr("is.constant")
def _isconst(m, a, name):
    return 0


@intr("trap", "ubsantrap", "debugtrap")
def _trap(m, a, name):
    m.bad("trap executed")


def _width(name):
    return int(re.search(r"\.i(\d+)", name).group(1))


@intr("uadd.with.overflow", "sadd.with.overflow", "usub.with.overflow", "ssub.with.overflow", "umul.with.overflow",
      "smul.with.overflow")
def _ovf(m, a, name):
    w = _width(name)
    k = name.split(".")[1]
    x, y = a
    signed, op = k[0] == "s", k[1:]
    r = m.binop(op, w, x, y)
    if isinstance(x, int) and isinstance(y, int):
        X, Y = (sgn(x, w), sgn(y, w)) if signed else (x, y)
        e = {"add": X + Y, "sub": X - Y, "mul": X * Y}[op]
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        return [r, int(not lo <= e <= hi)]
    ext = w if op == "mul" else 2
    f = z3.SignExt if signed else z3.ZeroExt
    X, Y = f(ext, bv(x, w)), f(ext, bv(y, w))
    e = {"add": X + Y, "sub": X - Y, "mul": X * Y}[op]
    o = simp(e != f(ext, bv(r, w)))
    return [r, o]


@intr("uadd.sat", "usub.sat")
def _sat(m, a, name):
    w = _width(name)
    r, o = _ovf(m, a, name.replace(".sat", ".with.overflow"))
    return m.select(o, (1 << w) - 1 if "uadd" in name else 0, r, ity(w))


@intr("umin", "umax", "smin", "smax")
def _minmax(m, a, name):
    k = name.split(".")[1]
    w = _width(name)
    pred = {"umin": "ult", "umax": "ugt", "smin": "slt", "smax": "sgt"}[k]
    return m.select(m.icmp(pred, ity(w), a[0], a[1]), a[0], a[1], ity(w))


@intr("abs")
def _abs(m, a, name):
    w = _width(name)
    return m.select(m.icmp("slt", ity(w), a[0], 0), m.binop("sub", w, 0, a[0]), a[0], ity(w))


@intr("ucmp", "scmp")
def _ucmp(m, a, name):
    ws = re.findall(r"\.i(\d+)", name)
    rw, w = int(ws[0]), int(ws[-1])
    p = name.split(".")[1][0]
    lt = m.icmp(p + "lt", ity(w), a[0], a[1])
    gt = m.icmp(p + "gt", ity(w), a[0], a[1])
    return m.select(lt, (1 << rw) - 1, m.select(gt, 1, 0, ity(rw)), ity(rw))


@intr("bswap")
def _bswap(m, a, name):
    w = _width(name)
    if isinstance(a[0], int):
        return int.from_bytes(a[0].to_bytes(w // 8, "little"), "big")
    return simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a[0]) for i in range(w // 8)]))


@intr("bitreverse")
def _bitreverse(m, a, name):
    w = _width(name)
    if isinstance(a[0], int):
        return int(bin(a[0])[2:].zfill(w)[::-1], 2)
    return simp(z3.Concat(*[z3.Extract(i, i, a[0]) for i in range(w)])) if w > 1 else a[0]


@intr("fshl", "fshr")
def _fsh(m, a, name):
    w = _width(name)
    c = m.binop("and", w, a[2], w - 1) if not w & (w - 1) else m.binop("urem", w, a[2], w)
    x = z3.Concat(bv(a[0], w), bv(a[1], w))
    c2 = z3.ZeroExt(w, bv(c, w))
    if "fshl" in name:
        return simp(z3.Extract(2 * w - 1, w, x << c2))
    return simp(z3.Extract(w - 1, 0, z3.LShR(x, c2)))


@intr("ctlz", "cttz", "ctpop")
def _ct(m, a, name):
    w = _width(name)
    v = a[0]
    if isinstance(v, int):
        b = bin(v)[2:].zfill(w)
        if "ctpop" in name:
            return b.count("1")
        if v == 0:
            return w
        return b.index("1") if "ctlz" in name else w - 1 - b.rindex("1")
    if "ctpop" in name:
        r = z3.BitVecVal(0, w)
        for i in range(w):
            r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, v))
        return simp(r)
    r = z3.BitVecVal(w, w)
    order = range(w) if "ctlz" in name else reversed(range(w))
    for i in order:
        bit = z3.Extract(i, i, v) == 1
        r = z3.If(bit, z3.BitVecVal(w - 1 - i if "ctlz" in name else i, w), r)
    return simp(r)


@intr("vector.reduce")
def _vred(m, a, name):
    k = name.split(".")[3]
    v = a[-1]
    w = _width(name)
    r = v[0]
    for x in v[1:]:
        if k in ("add", "mul", "and", "or", "xor"):
            r = m.binop(k, w, r, x)
        else:
            raise Inconclusive(name)
    return r


# C++ runtime

@intr("eh.typeid.for")
def _typeid(m, a, name):
    return m.typeid(a[0])


@lib("__cxa_allocate_exception")
def _cxa_alloc(m, a, name):
    return m.alloc(m.fork_value(a[0], 64) + 64, "heap", "exception").base


@lib("__cxa_free_exception", "__cxa_end_catch")
def _cxa_end(m, a, name):
    if name == "@__cxa_end_catch" and getattr(m, "current", None):
        m.current.pop()


@lib("__cxa_begin_catch")
def _cxa_begin(m, a, name):
    u = m.caught.pop()
    m.current = getattr(m, "current", []) + [u]
    return u.exc


@lib("__cxa_throw")
def _cxa_throw(m, a, name):
    raise _Unwind(a[0], "C++ exception", m.addr(a[1]))


@lib("__cxa_rethrow")
def _cxa_rethrow(m, a, name):
    raise m.current[-1]


@lib("_ZSt20__throw_length_errorPKc")
def _tle(m, a, name):
    m.throw("std:length_error")


@lib("_ZSt19__throw_logic_errorPKc")
def _tloe(m, a, name):
    m.throw("std:logic_error")


@lib("_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt20__throw_out_of_rangePKc")
def _toor(m, a, name):
    m.throw("std:out_of_range")


@lib("_ZSt17__throw_bad_allocv", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt25__throw_bad_function_callv",
     "_ZSt21__throw_runtime_errorPKc", "_ZSt16__throw_bad_castv")
def _tba(m, a, name):
    m.throw("std:bad_alloc")


@lib("_ZSt9terminatev", "__clang_call_terminate", "abort", "__cxa_pure_virtual", "__cxa_call_unexpected")
def _term(m, a, name):
    m.bad("program terminates abnormally (%s)" % name)


@lib("__assert_fail")
def _assert(m, a, name):
    m.bad("assertion failed: %s" % "".join(chr(c) if isinstance(c, int) else "?" for c in m.cstr(a[0])))


@lib("__cxa_guard_acquire")
def _guard(m, a, name):
    return int(m.load(ity(8), a[0]) == 0)


@lib("__cxa_guard_release", "__cxa_guard_abort")
def _guard_rel(m, a, name):
    if name.endswith("release"):
        m.store(ity(8), 1, a[0])


@lib("__cxa_atexit", "sysconf", "pthread_mutex_lock", "pthread_mutex_unlock")
def _zero(m, a, name):
    return 0


PATTERNS += [
    # constructors/destructors of standard exceptions and of the iostream initialiser: opaque
    (re.compile(r"^@_ZNSt(13runtime_error|14overflow_error|15underflow_error|11range_error|12domain_error|16bad_optional_access|8bad_cast|11logic_error|12out_of_range|12length_error|16invalid_argument|9bad_alloc|9exception|8ios_base4Init)[CD]\dE"),
     lambda m, a, name: _exception(m, a, name)),
    (re.compile(r"^@_ZNKSt(13runtime_error|9exception)4whatEv"), lambda m, a, name: _what(m)),
]


@lib("flatdata_sym_exception_dtor")
def _edtor(m, a, name):
    return None


@lib("flatdata_sym_exception_what")
def _ewhat(m, a, name):
    return _what(m)


def _exception(m, a, name):
    """constructors give the object a table of virtual functions"""
    if "ios_base" in name or not re.search(r"C\dE", name):
        return None
    if not hasattr(m, "exception_vt"):
        o = m.alloc(24, "global", "exception vtable", [0] * 24)
        for i, f in enumerate(("dtor", "dtor", "what")):
            m.store(ity(64), m.global_addr("@flatdata_sym_exception_" + f), o.base + 8 * i)
        m.exception_vt = o.base
    m.store(ity(64), m.exception_vt, a[0])
    return None


def _what(m):
    o = m.alloc(2, "heap", "what", [63, 0])
    return o.base


# std::ostream handed out by a harness: `write`, `seekp`, `flush`, state; content is recorded by
# stream address. The harness obtains such an object from `flatdata_sym_stream()`.

class Sink:
    def __init__(self):
        self.data = []
        self.pos = 0

    def write(self, cells):
        self.data[self.pos:self.pos + len(cells)] = cells
        self.pos += len(cells)

    def sync(self, m):
        pass


# Rust runtime
PATTERNS += [
    (re.compile(r"panicking|unwrap_failed|expect_failed|panic_bounds_check|slice_start_index|slice_end_index|slice_index|"
                r"handle_alloc_error|capacity_overflow|handle_error|copy_from_slice_impl|len_mismatch_fail|panic_nounwind|index.*_fail"),
     lambda m, a, name: m.throw("panic")),
    (re.compile(r"rust_no_alloc_shim"), lambda m, a, name: 0),
]


def to_arg(v):
    """SymInt / int / Obj -> machine value"""
    if isinstance(v, Obj):
        return v.base
    if isinstance(v, pysym.SymInt):
        t, n = v.t, v.t.size()
        if n > 64:
            return simp(z3.Extract(63, 0, t))
        if n < 64:
            return simp(z3.SignExt(64 - n, t))
        return simp(t)
    if isinstance(v, pysym.SymBool):
        return bv(v.t, 64)
    return int(v) & (2 ** 64 - 1)


def to_int(v, w=64, signed=False):
    """machine value -> int / SymInt"""
    if isinstance(v, int):
        return sgn(v, w) if signed else v
    if z3.is_bool(v):
        v = bv(v, w)
    r = pysym.SymInt.unsigned(v)
    if signed:
        return r - ((r >> (w - 1)) << w)
    return r
