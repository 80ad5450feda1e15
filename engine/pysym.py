"""
Symbolic execution of the real Python functions of flatdata.

The functions under test are the ones imported from /repo: nothing is copied or translated by hand.
They are run with proxy values whose operations build z3 bit-vector terms:

  SymInt    mathematical (unbounded) Python integer.  Every value carries a sound interval [lo, hi];
            the z3 term is a signed bit-vector just wide enough for that interval, so no operation
            ever wraps: arithmetic is exact Python arithmetic.
  SymBool   z3 Bool; `if`/`while`/`and`/`or`/`not` fork the path (see Explorer).
  SymBytes  bytes/bytearray/memoryview/mmap stand-in of concrete length with symbolic 8-bit cells.

Builtins that end in C (int.from_bytes, bytearray, memoryview, divmod, range, len ...) are replaced
by shims put into the globals of the flatdata modules for the duration of a run (`shimmed`).  A
symbolic value reaching any other C boundary through __index__/__hash__ is concretised by forking
over every feasible value (exhaustively: exceeding the fork limit is an error, never a silent cut).
"""
import builtins
import contextlib
import random
import re
import struct as real_struct
import difflib as real_difflib
import sys
import time

import z3

_real = builtins


class Inconclusive(Exception):
    """Solver answered unknown, or a bound of the engine itself was hit."""


from merge import Speculation


class PathAbort(BaseException):
    """Ends the current path (infeasible assumption)."""


class _State:
    explorer = None
    stop = None         # callable(now): give up?
    progress = 0.0      # time of the last solver query


def _ex():
    if _State.explorer is None:
        raise Inconclusive("symbolic value used outside of an exploration")
    return _State.explorer


# --------------------------------------------------------------------------------------- integers

def _width(lo, hi):
    """Signed width that can hold every value in [lo, hi]."""
    w = 1
    if hi > 0:
        w = max(w, hi.bit_length() + 1)
    if lo < 0:
        w = max(w, (-lo - 1).bit_length() + 1)
    return w


class SymInt:
    __slots__ = ("t", "lo", "hi", "__weakref__")

    def __init__(self, term, lo, hi):
        # term: BitVec, signed, of exactly _width(lo, hi) bits
        self.t = term
        self.lo = lo
        self.hi = hi

    # -- helpers
    @staticmethod
    def lift(v):
        if isinstance(v, SymInt):
            return v
        if isinstance(v, SymBool):
            return SymInt(z3.If(v.t, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)
        if _real.isinstance(v, bool):
            v = _real.int(v)
        if _real.isinstance(v, _real.int):
            return SymInt(z3.BitVecVal(v, _width(v, v)), v, v)
        return None

    @staticmethod
    def unsigned(term):
        """Non-negative integer from an n-bit unsigned term."""
        n = term.size()
        return SymInt(z3.ZeroExt(1, term), 0, (1 << n) - 1)

    @staticmethod
    def signed(term):
        n = term.size()
        return SymInt(term, -(1 << (n - 1)), (1 << (n - 1)) - 1)

    def at(self, w):
        n = self.t.size()
        if n == w:
            return self.t
        if n < w:
            return z3.SignExt(w - n, self.t)
        return z3.Extract(w - 1, 0, self.t)

    @staticmethod
    def mk(term, lo, hi):
        w = _width(lo, hi)
        n = term.size()
        if n > w:
            term = z3.Extract(w - 1, 0, term)
        elif n < w:
            term = z3.SignExt(w - n, term)
        term = z3.simplify(term)
        if z3.is_bv_value(term):
            return term.as_signed_long()
        return SymInt(term, lo, hi)

    def _bin(self, other, op, rng):
        o = SymInt.lift(other)
        if o is None:
            return NotImplemented
        lo, hi = rng(self.lo, self.hi, o.lo, o.hi)
        w = max(_width(lo, hi), self.t.size(), o.t.size())
        return SymInt.mk(op(self.at(w), o.at(w)), lo, hi)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b, c, d: (a + c, b + d))
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b, c, d: (a - d, b - c))

    def __rsub__(self, o):
        o = SymInt.lift(o)
        return NotImplemented if o is None else o - self

    def __mul__(self, o):
        if isinstance(o, (SymBytes, _real.list, _real.str, _real.bytes)):
            return NotImplemented

        def rng(a, b, c, d):
            p = [a * c, a * d, b * c, b * d]
            return min(p), max(p)
        return self._bin(o, lambda a, b: a * b, rng)
    __rmul__ = __mul__

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __invert__(self):
        return SymInt.mk(~self.t, -self.hi - 1, -self.lo - 1)

    @staticmethod
    def _bitrange(a, b, c, d):
        w = max(_width(a, b), _width(c, d))
        return -(1 << (w - 1)), (1 << (w - 1)) - 1

    def __and__(self, o):
        def rng(a, b, c, d):
            if a >= 0 and c >= 0:
                return 0, min(b, d)
            if a >= 0:
                return 0, b
            if c >= 0:
                return 0, d
            return self._bitrange(a, b, c, d)
        return self._bin(o, lambda a, b: a & b, rng)
    __rand__ = __and__

    def __or__(self, o):
        def rng(a, b, c, d):
            if a >= 0 and c >= 0:
                return max(a, c), (1 << max(b.bit_length(), d.bit_length())) - 1
            return self._bitrange(a, b, c, d)
        return self._bin(o, lambda a, b: a | b, rng)
    __ror__ = __or__

    def __xor__(self, o):
        def rng(a, b, c, d):
            if a >= 0 and c >= 0:
                return 0, (1 << max(b.bit_length(), d.bit_length())) - 1
            return self._bitrange(a, b, c, d)
        return self._bin(o, lambda a, b: a ^ b, rng)
    __rxor__ = __xor__

    def _shift_amount(self, o):
        if isinstance(o, SymInt):
            return o.__index__()
        return _real.int(o)

    def _shift_term(self, o):
        """shifts by a symbolic number of bits stay terms, unless the range is too wide"""
        if not isinstance(o, SymInt) or o.lo < -512 or o.hi > 512:
            return False
        if o.lo < 0 and o < 0:
            raise ValueError("negative shift count")
        return True

    def __lshift__(self, o):
        if self._shift_term(o):
            n, m = max(o.lo, 0), o.hi
            lo, hi = min(self.lo << n, self.lo << m), max(self.hi << n, self.hi << m)
            w = max(_width(lo, hi), self.t.size(), o.t.size())
            return SymInt.mk(self.at(w) << o.at(w), lo, hi)
        n = self._shift_amount(o)
        if n < 0:
            raise ValueError("negative shift count")
        lo, hi = self.lo << n, self.hi << n
        w = _width(lo, hi)
        w = max(w, self.t.size() + n)
        return SymInt.mk(self.at(w) << n, lo, hi)

    def __rshift__(self, o):
        if self._shift_term(o):
            n, m = max(o.lo, 0), o.hi
            lo, hi = min(self.lo >> n, self.lo >> m), max(self.hi >> n, self.hi >> m)
            w = max(self.t.size(), o.t.size())
            return SymInt.mk(self.at(w) >> o.at(w), lo, hi)
        n = self._shift_amount(o)
        if n < 0:
            raise ValueError("negative shift count")
        lo, hi = self.lo >> n, self.hi >> n
        w = self.t.size()
        return SymInt.mk(self.t >> min(n, w), lo, hi)

    def __rlshift__(self, o):
        if _real.isinstance(o, _real.int) and self.hi <= 512:
            return SymInt.lift(o) << self
        return o << self.__index__()

    def __rrshift__(self, o):
        if _real.isinstance(o, _real.int) and self.hi <= 512:
            return SymInt.lift(o) >> self
        return o >> self.__index__()

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __floordiv__(self, o):
        o = SymInt.lift(o)
        if o is None:
            return NotImplemented
        if o.lo <= 0 <= o.hi:
            if o == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
        m = max(abs(self.lo), abs(self.hi))
        lo, hi = -m - 1, m + 1
        if self.lo >= 0 and o.lo >= 0:
            lo, hi = 0, self.hi
            if o.lo > 0:
                hi = self.hi // o.lo
        w = max(_width(lo, hi), self.t.size(), o.t.size()) + 1
        a, b = self.at(w), o.at(w)
        if self.lo >= 0 and o.lo >= 0:
            return SymInt.mk(z3.UDiv(a, b), lo, hi)
        q = a / b
        r = z3.SRem(a, b)
        fix = z3.And(r != 0, (r < 0) != (b < 0))
        return SymInt.mk(z3.If(fix, q - 1, q), lo, hi)

    def __rfloordiv__(self, o):
        o = SymInt.lift(o)
        return NotImplemented if o is None else o // self

    def __mod__(self, o):
        o = SymInt.lift(o)
        if o is None:
            return NotImplemented
        if o.lo <= 0 <= o.hi:
            if o == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
        w = max(self.t.size(), o.t.size()) + 1
        a, b = self.at(w), o.at(w)
        if o.lo > 0:
            lo, hi = 0, o.hi - 1
            if self.lo >= 0:
                return SymInt.mk(z3.URem(a, b), lo, min(hi, self.hi))
        else:
            lo, hi = o.lo + 1 if o.lo < 0 else 0, max(o.hi - 1, 0)
        r = z3.SRem(a, b)
        fix = z3.And(r != 0, (r < 0) != (b < 0))
        return SymInt.mk(z3.If(fix, r + b, r), min(lo, 0), max(hi, 0))

    def __rmod__(self, o):
        if _real.isinstance(o, _real.str):
            return NotImplemented
        o = SymInt.lift(o)
        return NotImplemented if o is None else o % self

    def __pow__(self, o, mod=None):
        n = self._shift_amount(o)
        r = 1
        for _ in _real.range(n):
            r = r * self
        return r if mod is None else r % mod

    def __rpow__(self, o):
        # concrete ** symbolic; exact for base 2 up to a bounded exponent via a case split term
        if _real.isinstance(o, _real.int) and o > 2 and o & (o - 1) == 0 and 0 <= self.lo and self.hi * o.bit_length() <= 512:
            return 1 << self * (o.bit_length() - 1)
        if _real.isinstance(o, _real.int) and o == 2 and 0 <= self.lo and self.hi <= 512:
            lo, hi = 1 << self.lo, 1 << self.hi
            w = _width(lo, hi)
            return SymInt.mk(z3.BitVecVal(1, w) << self.at(max(w, self.t.size())) if
                             w >= self.t.size() else
                             z3.Extract(w - 1, 0, z3.BitVecVal(1, self.t.size()) << self.t), lo, hi)
        return o ** self.__index__()

    # -- comparisons
    def _cmp(self, other, op, quick):
        o = SymInt.lift(other)
        if o is None:
            return NotImplemented
        q = quick(self.lo, self.hi, o.lo, o.hi)
        if q is not None:
            return q
        w = max(self.t.size(), o.t.size())
        return SymBool.mk(op(self.at(w), o.at(w)))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b,
                      lambda a, b, c, d: False if b < c or d < a else None)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b,
                      lambda a, b, c, d: True if b < c or d < a else None)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b,
                         lambda a, b, c, d: True if b < c else (False if a >= d else None))

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b,
                         lambda a, b, c, d: True if b <= c else (False if a > d else None))

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b,
                         lambda a, b, c, d: True if a > d else (False if b <= c else None))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b,
                         lambda a, b, c, d: True if a >= d else (False if b < c else None))

    # -- leaving the symbolic world
    def __bool__(self):
        return _real.bool(self != 0)

    def __index__(self):
        return _ex().concretise(self)

    def __int__(self):
        return _ex().concretise(self)

    def __hash__(self):
        return hash(_ex().concretise(self))

    def __str__(self):
        return _ex().render(self)
    __repr__ = __str__

    def __format__(self, spec):
        return _ex().render(self)

    def bit_length(self):
        a = abs(self)
        if not isinstance(a, SymInt):
            return a.bit_length()
        n = max(abs(self.lo), abs(self.hi)).bit_length()
        w = _width(0, n)
        r = z3.BitVecVal(0, w)
        aw = a.t.size()
        for i in _real.range(n):
            if i < aw:
                r = z3.If(z3.Extract(i, i, a.t) == 1, z3.BitVecVal(i + 1, w), r)
        return SymInt.mk(r, 0, n)

    def bit_count(self):
        a = abs(self)
        if not isinstance(a, SymInt):
            return a.bit_count()
        r = 0
        for i in _real.range(a.t.size()):
            r = r + SymInt.unsigned(z3.Extract(i, i, a.t))
        return r

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        length = _real.int(length)
        if signed:
            lo, hi = -(1 << (8 * length - 1)) if length else 0, (1 << (8 * length - 1)) - 1 if length else 0
        else:
            lo, hi = 0, (1 << (8 * length)) - 1
            if self < 0:
                raise OverflowError("can't convert negative int to unsigned")
        if self < lo or self > hi:
            raise OverflowError("int too big to convert")
        if length == 0:
            return SymBytes([])
        t = self.at(8 * length)
        cells = [z3.simplify(z3.Extract(8 * i + 7, 8 * i, t)) for i in _real.range(length)]
        cells = [c.as_long() if z3.is_bv_value(c) else c for c in cells]
        if byteorder == "big":
            cells.reverse()
        return SymBytes(cells)

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self
    __floor__ = __trunc__
    __ceil__ = __trunc__


class SymFraction:
    """quotient of integers small enough for floats to be exact after rounding to integers"""
    __slots__ = ("n", "d")

    def __init__(self, n, d):
        self.n, self.d = n, d

    def __floor__(self):
        return self.n // self.d

    def __ceil__(self):
        return -((-self.n) // self.d)

    def __trunc__(self):
        q = self.n // self.d
        return q if _real.bool(q >= 0) else -((-self.n) // self.d)
    __int__ = __trunc__

    def is_integer(self):
        return self.n % self.d == 0

    def _cmp(self, o, f):
        if _real.isinstance(o, _real.float):
            if not o.is_integer():
                raise Inconclusive("comparison with a fraction")
            o = _real.int(o)
        return f(self.n, o * self.d) if self.d > 0 else f(-self.n, o * -self.d)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)
    __hash__ = None


def _divide(a, b):
    a, b = SymInt.lift(a), SymInt.lift(b)
    if a is None or b is None or b.lo != b.hi or b.lo == 0 or max(abs(a.lo), abs(a.hi)) >= 2 ** 53:
        raise Inconclusive("true division of symbolic integers")
    return SymFraction(a, b.lo)


SymInt.__truediv__ = lambda self, o: _divide(self, o)
SymInt.__rtruediv__ = lambda self, o: _divide(o, self)
SymInt.is_integer = lambda self: True
SymInt.as_integer_ratio = lambda self: (self, 1)


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @staticmethod
    def mk(t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return SymBool(t)

    def __bool__(self):
        return _ex().branch(self.t)

    def _i(self):
        return SymInt.lift(self)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool.mk(self.t == o.t)
        return self._i() == o

    def __ne__(self, o):
        if isinstance(o, SymBool):
            return SymBool.mk(self.t != o.t)
        return self._i() != o

    def _logic(self, o, f, intop):
        if isinstance(o, SymBool):
            return SymBool.mk(f(self.t, o.t))
        if _real.isinstance(o, bool):
            return SymBool.mk(f(self.t, z3.BoolVal(o)))
        return intop(self._i(), o)

    def __and__(self, o):
        return self._logic(o, z3.And, lambda a, b: a & b)
    __rand__ = __and__

    def __or__(self, o):
        return self._logic(o, z3.Or, lambda a, b: a | b)
    __ror__ = __or__

    def __xor__(self, o):
        return self._logic(o, z3.Xor, lambda a, b: a ^ b)
    __rxor__ = __xor__

    def __hash__(self):
        return hash(_real.bool(self))

    def __index__(self):
        return _real.int(_real.bool(self))
    __int__ = __index__

    def __str__(self):
        return str(_real.bool(self))
    __repr__ = __str__


for _n in ("add radd sub rsub mul rmul lshift rshift floordiv mod divmod neg invert lt le gt ge "
           "rlshift rrshift pow rpow rfloordiv rmod").split():
    def _mk(n):
        def f(self, *a):
            return getattr(self._i(), n)(*a)
        return f
    setattr(SymBool, "__%s__" % _n, _mk("__%s__" % _n))
for _n in "abs pos truediv rtruediv trunc floor ceil round".split():
    setattr(SymBool, "__%s__" % _n, (lambda n: lambda self, *a: getattr(self._i(), n)(*a))("__%s__" % _n))
SymBool.real = SymBool.numerator = property(lambda self: self._i())
SymBool.to_bytes = lambda self, *a, **k: self._i().to_bytes(*a, **k)
SymBool.bit_length = lambda self: self._i().bit_length()


def all_of(vs, absorbing, negate=False):
    """conjunction (absorbing False) or disjunction (True) of truth values"""
    ts = [v.t if type(v) is SymBool else (v.t != 0) if type(v) is SymInt else z3.BoolVal(_real.bool(v)) for v in vs]
    t = (z3.Or if absorbing else z3.And)(*ts)
    return SymBool.mk(z3.Not(t) if negate else t)


def merged(c, a, b):
    """if-then-else of two integers or truth values"""
    t = c.t if type(c) is SymBool else (c.t != 0)
    if a is b:
        return a
    if type(a) in (_real.bool, SymBool) and type(b) in (_real.bool, SymBool):
        x, y = (v.t if type(v) is SymBool else z3.BoolVal(v) for v in (a, b))
        return SymBool.mk(z3.If(t, x, y))
    x, y = SymInt.lift(a), SymInt.lift(b)
    w = max(x.t.size(), y.t.size())
    p, q = x.at(w), y.at(w)
    if w <= 9:          # bytes: only the bits which differ depend on the condition
        bits = []
        for i in reversed(range(w)):
            u, v = z3.simplify(z3.Extract(i, i, p)), z3.simplify(z3.Extract(i, i, q))
            bits.append(u if u.eq(v) else z3.If(t, u, v))
        return SymInt.mk(z3.Concat(bits) if w > 1 else bits[0], min(x.lo, y.lo), max(x.hi, y.hi))
    return SymInt.mk(z3.If(t, p, q), min(x.lo, y.lo), max(x.hi, y.hi))


# ------------------------------------------------------------------------------------------ bytes

def _cell_to_int(c):
    return c if _real.isinstance(c, _real.int) else SymInt.unsigned(c)


def _int_to_cell(v, what="byte"):
    if _real.isinstance(v, _real.bool):
        v = _real.int(v)
    if _real.isinstance(v, _real.int):
        if not 0 <= v <= 255:
            raise ValueError("%s must be in range(0, 256)" % what)
        return v
    v = SymInt.lift(v)
    if v is None:
        raise TypeError("an integer is required")
    if v < 0 or v > 255:
        raise ValueError("%s must be in range(0, 256)" % what)
    t = z3.simplify(v.at(8))
    return t.as_long() if z3.is_bv_value(t) else t


def _cells_of(o):
    if isinstance(o, SymBytes):
        return o.cells()
    if _real.isinstance(o, (_real.bytes, _real.bytearray, _real.memoryview)):
        return list(_real.bytes(o))
    return None


class SymBytes:
    """bytes / bytearray / memoryview with symbolic content and concrete length."""
    __slots__ = ("buf", "idx", "kind", "readpos")

    def __init__(self, cells, idx=None, kind="bytes"):
        self.buf = cells                        # shared backing list
        self.idx = idx if idx is not None else _real.range(len(cells))
        self.kind = kind
        self.readpos = 0

    @staticmethod
    def symbolic(name, n, kind="bytes"):
        return SymBytes([z3.BitVec("%s_%d" % (name, i), 8) for i in _real.range(n)], kind=kind)

    def cells(self):
        return [self.buf[i] for i in self.idx]

    def copy(self, kind=None):
        return SymBytes(self.cells(), kind=kind or self.kind)

    def __len__(self):
        return len(self.idx)

    @property
    def nbytes(self):
        return len(self.idx)

    @property
    def obj(self):
        return self

    def _norm_slice(self, s):
        def c(v):
            return v.__index__() if isinstance(v, (SymInt, SymBool)) else v
        return _real.slice(c(s.start), c(s.stop), c(s.step))

    def __getitem__(self, i):
        if _real.isinstance(i, _real.slice):
            sub = self.idx[self._norm_slice(i)]
            if self.kind == "memoryview":
                return SymBytes(self.buf, sub, "memoryview")
            return SymBytes([self.buf[j] for j in sub], kind=self.kind)
        if isinstance(i, (SymInt, SymBool)):
            i = i.__index__()
        return _cell_to_int(self.buf[self.idx[i]])

    def __setitem__(self, i, v):
        if self.kind == "bytes":
            raise TypeError("'bytes' object does not support item assignment")
        if _real.isinstance(i, _real.slice):
            cells = _cells_of(v)
            if cells is None:
                cells = [_int_to_cell(x) for x in v]
            sub = self.idx[self._norm_slice(i)]
            if len(sub) == len(cells):
                for j, c in zip(sub, cells):
                    self.buf[j] = c
                return
            if self.kind != "bytearray":
                raise ValueError("memoryview assignment: lvalue and rvalue have different structures")
            allc = self.cells()
            allc[self._norm_slice(i)] = cells
            self.buf = allc
            self.idx = _real.range(len(allc))
            return
        if isinstance(i, (SymInt, SymBool)):
            i = i.__index__()
        self.buf[self.idx[i]] = _int_to_cell(v)

    def __iter__(self):
        for j in self.idx:
            yield _cell_to_int(self.buf[j])

    def __add__(self, o):
        c = _cells_of(o)
        if c is None:
            return NotImplemented
        return SymBytes(self.cells() + c, kind=self.kind)

    def __radd__(self, o):
        c = _cells_of(o)
        if c is None:
            return NotImplemented
        return SymBytes(c + self.cells(), kind="bytearray" if _real.isinstance(o, _real.bytearray) else "bytes")

    def __iadd__(self, o):
        c = _cells_of(o)
        if c is None:
            return NotImplemented
        if self.kind == "bytearray":
            self.extend(o)
            return self
        return SymBytes(self.cells() + c, kind=self.kind)

    def __mul__(self, n):
        return SymBytes(self.cells() * _real.int(n), kind=self.kind)
    __rmul__ = __mul__

    def extend(self, o):
        c = _cells_of(o)
        if c is None:
            c = [_int_to_cell(x) for x in o]
        self.buf = self.cells() + c
        self.idx = _real.range(len(self.buf))

    def append(self, v):
        self.extend([v])

    def __eq__(self, o):
        c = _cells_of(o)
        if c is None:
            return False
        m = self.cells()
        if len(c) != len(m):
            return False
        conj = []
        for a, b in zip(m, c):
            if _real.isinstance(a, _real.int) and _real.isinstance(b, _real.int):
                if a != b:
                    return False
            else:
                conj.append((z3.BitVecVal(a, 8) if _real.isinstance(a, _real.int) else a) ==
                            (z3.BitVecVal(b, 8) if _real.isinstance(b, _real.int) else b))
        if not conj:
            return True
        return SymBool.mk(z3.And(*conj))

    def __ne__(self, o):
        r = self.__eq__(o)
        if isinstance(r, SymBool):
            return SymBool.mk(z3.Not(r.t))
        return not r

    def __hash__(self):
        return hash(self.concrete())

    def concrete(self):
        return _real.bytes(_real.int(x) if _real.isinstance(x, _real.int) else
                           _ex().concretise(SymInt.unsigned(x)) for x in self.cells())

    def __contains__(self, v):
        if isinstance(v, (SymInt,)) or _real.isinstance(v, _real.int):
            for x in self:
                if x == v:
                    return True
            return False
        return self.find(v) >= 0

    def find(self, sub, start=0, end=None):
        if _real.isinstance(sub, _real.int) or isinstance(sub, SymInt):
            sub = SymBytes([_int_to_cell(sub)])
        c = _cells_of(sub)
        n = len(self)
        start, end, _ = _real.slice(*[x.__index__() if isinstance(x, SymInt) else x
                                      for x in (start, end)]).indices(n)
        if _real.isinstance(start, _real.int) and start > n:
            return -1
        for i in _real.range(start, end - len(c) + 1):
            if self[i:i + len(c)] == SymBytes(c):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def startswith(self, p, start=0, end=None):
        c = _cells_of(p)
        s = self[start:end]
        return len(s) >= len(c) and _real.bool(s[:len(c)] == SymBytes(c))

    def endswith(self, p):
        c = _cells_of(p)
        return len(self) >= len(c) and _real.bool(self[len(self) - len(c):] == SymBytes(c))

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, SymBytes([]), SymBytes([])
        return self[:i], self[i:i + len(sep)], self[i + len(sep):]

    def _text(self):
        return SymStr(self.cells())

    @staticmethod
    def _back(v):
        if isinstance(v, (SymStr, _real.str)):
            return SymBytes(_chr_cells(v))
        if _real.isinstance(v, (_real.list, _real.tuple)):
            return type(v)(SymBytes._back(x) for x in v)
        return v

    @staticmethod
    def _arg(v):
        c = _cells_of(v)
        return v if c is None else SymStr(c)

    def strip(self, chars=None):
        return self._back(self._text().strip(self._arg(chars)))

    def rstrip(self, chars=None):
        return self._back(self._text().rstrip(self._arg(chars)))

    def lstrip(self, chars=None):
        return self._back(self._text().lstrip(self._arg(chars)))

    def replace(self, a, b, count=-1):
        return self._back(self._text().replace(self._arg(a), self._arg(b), count))

    def splitlines(self, keepends=False):
        return self._back(self._text().splitlines(keepends))

    def count(self, sub):
        return self._text().count(self._arg(sub))

    def rfind(self, sub, *a):
        return self._text().rfind(self._arg(sub), *a)

    def lower(self):
        return self._back(self._text().lower())

    def upper(self):
        return self._back(self._text().upper())

    def removesuffix(self, p):
        return self._back(self._text().removesuffix(self._arg(p)))

    def removeprefix(self, p):
        return self._back(self._text().removeprefix(self._arg(p)))

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._back(self._text().split())
        out, pos = [], 0
        while maxsplit < 0 or len(out) < maxsplit:
            i = self.find(sep, pos)
            if i < 0:
                break
            out.append(self[pos:i])
            pos = i + len(sep)
        out.append(self[pos:])
        return out

    def join(self, parts):
        out = []
        for k, p in enumerate(parts):
            if k:
                out += self.cells()
            out += _cells_of(p)
        return SymBytes(out)

    def ljust(self, width, fill=b" "):
        return SymBytes(self.cells() + _cells_of(fill) * max(0, width.__index__() - len(self)), kind=self.kind)

    def rjust(self, width, fill=b" "):
        return SymBytes(_cells_of(fill) * max(0, width.__index__() - len(self)) + self.cells(), kind=self.kind)

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return SymBytes([]), SymBytes([]), self
        return self[:i], self[i:i + len(sep)], self[i + len(sep):]

    def rsplit(self, sep=None, maxsplit=-1):
        return self._back(self._text().rsplit(self._arg(sep), maxsplit))

    def isascii(self):
        return all(not _real.bool(x >= 128) for x in self)

    def isspace(self):
        return self._text().isspace()

    def isdigit(self):
        return self._text().isdigit()

    def isalpha(self):
        return self._text().isalpha()

    def isalnum(self):
        return self._text().isalnum()

    def _mutable(self):
        if self.kind != "bytearray":
            raise AttributeError("not a bytearray")
        return self.cells()

    def _become(self, cells):
        self.buf = cells
        self.idx = _real.range(len(cells))

    def insert(self, i, v):
        c = self._mutable()
        c.insert(i.__index__(), _int_to_cell(v))
        self._become(c)

    def pop(self, i=-1):
        c = self._mutable()
        r = c.pop(i.__index__())
        self._become(c)
        return _cell_to_int(r)

    def clear(self):
        self._mutable()
        self._become([])

    def reverse(self):
        self._become(self._mutable()[::-1])

    def __delitem__(self, i):
        c = self._mutable()
        del c[self._norm_slice(i) if _real.isinstance(i, _real.slice) else i.__index__()]
        self._become(c)

    def __imul__(self, n):
        if self.kind != "bytearray":
            return self * n
        self._become(self.cells() * n.__index__())
        return self

    def __lt__(self, o):
        c = _cells_of(o)
        if c is None:
            return NotImplemented
        return SymStr(self.cells()) < SymStr(c)

    def __le__(self, o):
        return not SymStr(_cells_of(o)) < SymStr(self.cells())

    def __gt__(self, o):
        return SymStr(_cells_of(o)) < SymStr(self.cells())

    def __ge__(self, o):
        return not SymStr(self.cells()) < SymStr(_cells_of(o))

    itemsize, ndim, format, strides, contiguous, c_contiguous = 1, 1, "B", (1,), True, True

    @property
    def shape(self):
        return (len(self),)

    @property
    def readonly(self):
        return False

    def tobytes(self, order=None):
        return SymBytes(self.cells())

    def read(self, n=None):
        """file-object protocol of mmap"""
        end = len(self) if n is None or n < 0 else min(len(self), self.readpos + n)
        r = SymBytes(self.cells()[self.readpos:end])
        self.readpos = end
        return r

    def tolist(self):
        return list(self)

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def cast(self, fmt, *a):
        if fmt in ("B", "c"):
            return self
        raise Inconclusive("memoryview.cast(%r)" % fmt)

    def toreadonly(self):
        return self

    def decode(self, encoding="utf-8", errors="strict"):
        return SymStr.mk(self.cells())

    def hex(self, *a):
        return self.concrete().hex(*a)

    def __bytes__(self):
        return self.concrete()

    def __str__(self):
        return "<SymBytes %d>" % len(self)
    __repr__ = __str__


def _chr_cells(o):
    """cells of a text operand (one byte per character)"""
    if isinstance(o, SymStr):
        return o.c
    if _real.isinstance(o, _real.str):
        return list(o.encode("utf-8"))
    return None


def _is_one_of(cell, values):
    """forks on membership of a cell in a set of byte values"""
    if _real.isinstance(cell, _real.int):
        return cell in values
    return _real.bool(SymBool.mk(z3.Or(*[cell == z3.BitVecVal(v, 8) for v in values])))


_SPACE = tuple(range(9, 14)) + tuple(range(28, 33))
_LINE = (10, 11, 12, 13, 28, 29, 30)
_DIGIT = tuple(range(48, 58))
_ALPHA = tuple(range(65, 91)) + tuple(range(97, 123))


class SymStr:
    """Result of bytes.decode(): compared byte-wise. ASCII content is assumed by callers that need
    a one-byte-per-character correspondence. Methods classifying characters fork per symbolic character."""
    __slots__ = ("c",)

    def __init__(self, cells):
        self.c = list(cells)

    @staticmethod
    def mk(cells):
        if all(_real.isinstance(x, _real.int) for x in cells):
            return _real.bytes(cells).decode("utf-8")
        return SymStr(cells)

    def cells(self):
        return self.c

    def __len__(self):
        return len(self.c)

    def __eq__(self, o):
        if _real.isinstance(o, _real.str):
            return SymBytes(self.c) == o.encode()
        if isinstance(o, SymStr):
            return SymBytes(self.c) == SymBytes(o.c)
        return False

    def __ne__(self, o):
        r = self == o
        return SymBool.mk(z3.Not(r.t)) if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(SymBytes(self.c).concrete().decode("latin1"))

    def encode(self, *a):
        return SymBytes(self.c)

    def __getitem__(self, i):
        if isinstance(i, (SymInt, SymBool)):
            i = i.__index__()
        if _real.isinstance(i, _real.slice):
            return SymStr.mk(self.c[SymBytes([])._norm_slice(i)])
        return SymStr.mk([self.c[i]])

    def __iter__(self):
        for x in self.c:
            yield SymStr.mk([x])

    def __add__(self, o):
        c = _chr_cells(o)
        return NotImplemented if c is None else SymStr.mk(self.c + c)

    def __radd__(self, o):
        c = _chr_cells(o)
        return NotImplemented if c is None else SymStr.mk(c + self.c)

    def __mul__(self, n):
        return SymStr.mk(self.c * _real.int(n))

    def __lt__(self, o):
        c = _chr_cells(o)
        for x, y in zip(self.c, c):
            x, y = _cell_to_int(x), _cell_to_int(y)
            if x != y:
                return x < y
        return len(self.c) < len(c)

    def __le__(self, o):
        return not SymStr(_chr_cells(o)) < self

    def __gt__(self, o):
        return SymStr(_chr_cells(o)) < self

    def __ge__(self, o):
        return not self < o

    def _find(self, sub, start=0, end=None, back=False):
        c = _chr_cells(sub)
        start, end, _ = _real.slice(start, end).indices(len(self.c))
        r = _real.range(start, end - len(c) + 1)
        for i in (reversed(r) if back else r):
            if SymBytes(self.c[i:i + len(c)]) == SymBytes(c):
                return i
        return -1

    def find(self, sub, *a):
        return self._find(sub, *a)

    def rfind(self, sub, *a):
        return self._find(sub, *a, back=True)

    def index(self, sub, *a):
        r = self._find(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def __contains__(self, sub):
        return self._find(sub) >= 0

    def count(self, sub):
        n, pos, k = 0, 0, max(1, len(_chr_cells(sub)))
        while True:
            i = self._find(sub, pos)
            if i < 0:
                return n
            n, pos = n + 1, i + k

    def startswith(self, p, *a):
        if _real.isinstance(p, _real.tuple):
            return any(self.startswith(x) for x in p)
        c = _chr_cells(p)
        return len(self.c) >= len(c) and _real.bool(SymBytes(self.c[:len(c)]) == SymBytes(c))

    def endswith(self, p, *a):
        if _real.isinstance(p, _real.tuple):
            return any(self.endswith(x) for x in p)
        c = _chr_cells(p)
        return len(self.c) >= len(c) and _real.bool(SymBytes(self.c[len(self.c) - len(c):]) == SymBytes(c))

    def removesuffix(self, p):
        return SymStr.mk(self.c[:len(self.c) - len(p)]) if len(p) and self.endswith(p) else self

    def removeprefix(self, p):
        return SymStr.mk(self.c[len(p):]) if self.startswith(p) else self

    def _strip(self, chars, left, right):
        values = _SPACE if chars is None else tuple(_chr_cells(chars))
        s = self.c
        while left and s and _is_one_of(s[0], values):
            s = s[1:]
        while right and s and _is_one_of(s[-1], values):
            s = s[:-1]
        return SymStr.mk(s)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def split(self, sep=None, maxsplit=-1):
        if sep is not None:
            out, pos = [], 0
            while maxsplit < 0 or len(out) < maxsplit:
                i = self._find(sep, pos)
                if i < 0:
                    break
                out.append(self[pos:i])
                pos = i + len(sep)
            out.append(self[pos:])
            return out
        out, cur = [], []
        for x in self.c:
            if _is_one_of(x, _SPACE):
                if cur:
                    out.append(SymStr.mk(cur))
                cur = []
            else:
                cur.append(x)
        if cur:
            out.append(SymStr.mk(cur))
        return out

    def splitlines(self, keepends=False):
        if sum(not _real.isinstance(x, _real.int) for x in self.c) > 8:
            return ["<symbolic text>"]      # only used for messages
        out, cur, i = [], [], 0
        while i < len(self.c):
            x = self.c[i]
            i += 1
            if _is_one_of(x, _LINE):
                end = [x]
                if i < len(self.c) and _is_one_of(x, (13,)) and _is_one_of(self.c[i], (10,)):
                    end.append(self.c[i])
                    i += 1
                out.append(SymStr.mk(cur + (end if keepends else [])))
                cur = []
            else:
                cur.append(x)
        if cur:
            out.append(SymStr.mk(cur))
        return out

    def partition(self, sep):
        i = self._find(sep)
        if i < 0:
            return self, "", ""
        return self[:i], sep, self[i + len(sep):]

    def replace(self, old, new, count=-1):
        out, pos, c, n = [], 0, _chr_cells(old), _chr_cells(new)
        if not c:
            raise Inconclusive("replace of the empty text")
        while count != 0:
            i = self._find(old, pos)
            if i < 0:
                break
            out += self.c[pos:i] + n
            pos = i + len(c)
            count -= 1
        return SymStr.mk(out + self.c[pos:])

    def _map(self, lo, hi, delta):
        out = []
        for x in self.c:
            if _real.isinstance(x, _real.int):
                out.append(x + delta if lo <= x <= hi else x)
            else:
                out.append(z3.If(z3.And(z3.UGE(x, lo), z3.ULE(x, hi)), x + delta, x))
        return SymStr.mk(out)

    def lower(self):
        return self._map(65, 90, 32)
    casefold = lower

    def upper(self):
        return self._map(97, 122, -32)

    def isspace(self):
        return len(self.c) > 0 and all(_is_one_of(x, _SPACE) for x in self.c)

    def join(self, parts):
        out = []
        for k, p in enumerate(parts):
            out += (self.c if k else []) + _chr_cells(p)
        return SymStr.mk(out)

    def expandtabs(self, n=8):
        raise Inconclusive("expandtabs")

    def ljust(self, width, fill=" "):
        return SymStr.mk(self.c + _chr_cells(fill) * max(0, width.__index__() - len(self.c)))

    def rjust(self, width, fill=" "):
        return SymStr.mk(_chr_cells(fill) * max(0, width.__index__() - len(self.c)) + self.c)

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return "", "", self
        return self[:i], sep, self[i + len(sep):]

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            if maxsplit < 0:
                return self.split()
            raise Inconclusive("rsplit")
        out, end = [], len(self.c)
        while maxsplit < 0 or len(out) < maxsplit:
            i = self._find(sep, 0, end, back=True)
            if i < 0:
                break
            out.append(self[i + len(sep):end])
            end = i
        out.append(self[:end])
        return out[::-1]

    def _all_in(self, values):
        return len(self.c) > 0 and all(_is_one_of(x, values) for x in self.c)

    def isdigit(self):
        return self._all_in(_DIGIT)
    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return self._all_in(_ALPHA)

    def isalnum(self):
        return self._all_in(_DIGIT + _ALPHA)

    def isidentifier(self):
        return self._all_in(_DIGIT + _ALPHA + (95,)) and not _is_one_of(self.c[0], _DIGIT)

    def isascii(self):
        return all(_is_one_of(x, tuple(range(128))) for x in self.c)

    def isupper(self):
        return bool(self.upper() == self) and not bool(self.lower() == self)

    def islower(self):
        return bool(self.lower() == self) and not bool(self.upper() == self)

    def capitalize(self):
        return SymStr.mk(_chr_cells(SymStr(self.c[:1]).upper()) + _chr_cells(SymStr(self.c[1:]).lower()))

    def swapcase(self):
        raise Inconclusive("swapcase")

    def __rmul__(self, n):
        return self * n

    def __format__(self, spec):
        raise Inconclusive("formatted symbolic text")

    def __str__(self):
        return "<SymStr>"
    __repr__ = __str__


def text_method(o, name, a, k):
    """o.name(*a, **k) of a real text or bytes object, where an argument may be symbolic"""
    if type(o) is _real.str or type(o) in (_real.bytes, _real.bytearray):
        if name == "join" and len(a) == 1 and not _real.isinstance(a[0], (_real.str, SymStr)):
            a = (list(a[0]),)
        flat = [x for v in list(a) + list(k.values()) for x in (v if _real.isinstance(v, (list, tuple)) else (v,))]
        if any(_real.isinstance(x, (SymStr, SymBytes)) for x in flat):
            if type(o) is _real.str:
                if name == "format":
                    return format_text(o, a, k)
                return getattr(SymStr(_chr_cells(o)), name)(*a, **k)
            return getattr(SymBytes(list(o)), name)(*a, **k)
    return getattr(o, name)(*a, **k)


def format_text(fmt, a, k):
    import string
    out, n = [], 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        if field == "":
            field, n = _real.str(n), n + 1
        v = string.Formatter().get_field(field, a, k)[0]
        out.append(piece(v, conv, spec or ""))
    return SymStr([]).join(out)


def piece(v, conv, spec):
    if _real.isinstance(v, SymStr) and not spec and conv in (None, "s"):
        return v
    if _real.isinstance(v, (SymStr, SymBytes)):
        raise Inconclusive("formatted symbolic text")
    v = {"r": repr, "a": ascii}.get(conv, lambda x: x)(v)
    return format(v, spec)


def fstring(*parts):
    """parts: texts and (value, conversion, specification)"""
    out = [x if type(x) is _real.str else piece(*x) for x in parts]
    if any(_real.isinstance(x, SymStr) for x in out):
        return SymStr([]).join(out)
    return "".join(out)


def percent(fmt, v):
    if type(fmt) is _real.str:
        vs = v if type(v) is tuple else (v,)
        if any(_real.isinstance(x, SymStr) for x in vs):
            parts = re.split(r"(%.)", fmt)
            it, out = iter(vs), []
            for x in parts:
                if x[:1] != "%" or x == "%%":
                    out.append("%" if x == "%%" else x)
                elif x == "%s":
                    out.append(piece(next(it), None, ""))
                else:
                    out.append(x % next(it))
            return SymStr([]).join(out)
    return fmt % v


def contains(x, o):
    if type(o) is _real.str and _real.isinstance(x, SymStr):
        return x in SymStr(_chr_cells(o))
    if type(o) in (_real.bytes, _real.bytearray) and _real.isinstance(x, (SymBytes, SymInt)):
        return x in SymBytes(list(o))
    return x in o


# ------------------------------------------------------------------------------------------ shims

def has_sym(*vs):
    return any(isinstance(v, (SymInt, SymBool, SymBytes, SymStr)) for v in vs)


def isinstance(o, t):  # noqa: shadows builtin inside this module for the Sym* classes
    return _real.isinstance(o, t)


class _ShimMeta(type):
    def __instancecheck__(cls, o):
        return _real.isinstance(o, cls._types) or cls._extra(o)

    def __subclasscheck__(cls, c):
        return any(issubclass(c, t) for t in cls._types if _real.isinstance(t, type))

    def __eq__(cls, o):
        return o is cls or o is cls._types[0]

    def __hash__(cls):
        return hash(cls._types[0])

    def __or__(cls, o):
        return (cls, o)


class ShimInt(metaclass=_ShimMeta):
    _types = (_real.int, SymInt)
    _extra = staticmethod(lambda o: isinstance(o, SymBool))

    def __new__(cls, v=0, *a):
        if isinstance(v, SymInt):
            return v
        if isinstance(v, SymBool):
            return SymInt.lift(v)
        if _real.isinstance(v, _real.str) and _State.explorer is not None:
            r = _State.explorer.literals.get(v)
            if r is not None:
                return r
        if hasattr(v, "__int__") and has_sym(getattr(v, "value", None)):
            return v.__int__()
        return _real.int(v, *a)

    @staticmethod
    def from_bytes(b, byteorder="big", *, signed=False):
        c = _cells_of(b)
        if c is None:
            c = [_int_to_cell(x) for x in b]
        if all(_real.isinstance(x, _real.int) for x in c):
            return _real.int.from_bytes(_real.bytes(c), byteorder, signed=signed)
        if byteorder == "little":
            c = c[::-1]
        t = [z3.BitVecVal(x, 8) if _real.isinstance(x, _real.int) else x for x in c]
        t = t[0] if len(t) == 1 else z3.Concat(*t)
        v = SymInt.signed(t) if signed else SymInt.unsigned(t)
        return SymInt.mk(v.t, v.lo, v.hi)

    @staticmethod
    def to_bytes(v, *a, **k):
        return v.to_bytes(*a, **k)

    @staticmethod
    def bit_length(v):
        return v.bit_length()


class ShimBool(metaclass=_ShimMeta):
    _types = (_real.bool, SymBool)
    _extra = staticmethod(lambda o: False)

    def __new__(cls, v=False):
        if isinstance(v, SymBool):
            return v
        if isinstance(v, SymInt):
            return v != 0
        return _real.bool(v)


def _mk_bytes(kind):
    real = getattr(_real, kind)

    class Shim(metaclass=_ShimMeta):
        _types = (real,)
        _extra = staticmethod(lambda o: isinstance(o, SymBytes) and o.kind == kind)

        def __new__(cls, v=None, *a, **k):
            if v is None:
                return SymBytes([], kind=kind)
            if isinstance(v, SymInt):
                v = v.__index__()
            if _real.isinstance(v, _real.str):
                return SymBytes(list(v.encode(*a, **k)), kind=kind)
            if _real.isinstance(v, _real.int) and not _real.isinstance(v, _real.bool):
                return SymBytes([0] * v, kind=kind)
            if isinstance(v, SymStr):
                return SymBytes(list(v.c), kind=kind)
            if not isinstance(v, SymBytes) and hasattr(v, "__bytes__"):
                v = v.__bytes__()
            c = _cells_of(v)
            if c is None:
                c = [_int_to_cell(x, "bytes" if kind == "bytes" else "byte") for x in v]
            return SymBytes(list(c), kind=kind)

        fromhex = staticmethod(lambda s: SymBytes(list(_real.bytes.fromhex(s)), kind=kind))
        join = staticmethod(lambda s, parts: SymBytes(_cells_of(s)).join(parts))
    Shim.__name__ = "Shim" + kind
    return Shim


ShimBytes = _mk_bytes("bytes")
ShimBytearray = _mk_bytes("bytearray")


class ShimMemoryview(metaclass=_ShimMeta):
    _types = (_real.memoryview,)
    _extra = staticmethod(lambda o: isinstance(o, SymBytes) and o.kind == "memoryview")

    def __new__(cls, v):
        if isinstance(v, SymBytes):
            # a memoryview shares storage with its object
            return SymBytes(v.buf, v.idx, "memoryview")
        if _real.isinstance(v, (_real.bytes, _real.bytearray, _real.memoryview)):
            return SymBytes(list(_real.bytes(v)), kind="memoryview")
        return _real.memoryview(v)


class ShimStr(metaclass=_ShimMeta):
    _types = (_real.str,)
    _extra = staticmethod(lambda o: isinstance(o, SymStr))

    def __new__(cls, v="", *a, **k):
        if isinstance(v, SymStr):
            return v
        if isinstance(v, SymBytes) and (a or k):
            return v.decode(*a, **k)
        return _real.str(v, *a, **k)

    join = staticmethod(lambda s, parts: SymStr(_chr_cells(s)).join(parts))


class ShimRange(metaclass=_ShimMeta):
    _types = (_real.range,)
    _extra = staticmethod(lambda o: isinstance(o, _SymRange))

    def __new__(cls, *a):
        if has_sym(*a):
            return _SymRange(*a)
        return _real.range(*a)


class _SymRange:
    """range over symbolic bounds: iteration forks on the loop condition."""

    def __init__(self, *a):
        self.start, self.stop, self.step = 0, None, 1
        if len(a) == 1:
            self.stop = a[0]
        elif len(a) == 2:
            self.start, self.stop = a
        else:
            self.start, self.stop, self.step = a
        if isinstance(self.step, SymInt):
            self.step = self.step.__index__()

    def __iter__(self):
        i = self.start
        n = 0
        while (i < self.stop) if self.step > 0 else (i > self.stop):
            yield i
            i = i + self.step
            n += 1
            if n > 100000:
                raise Inconclusive("range too long")

    def _norm(self, v):
        return v.__index__() if isinstance(v, SymInt) else v

    def concrete(self):
        return _real.range(self._norm(self.start), self._norm(self.stop), self.step)

    def __len__(self):
        return len(self.concrete())

    def __getitem__(self, i):
        return self.concrete()[i]

    def __contains__(self, v):
        if self.step == 1:
            return _real.bool((v >= self.start) & (v < self.stop)) if has_sym(v >= self.start, v < self.stop) \
                else (v >= self.start) and (v < self.stop)
        return v in self.concrete()

    def __reversed__(self):
        return reversed(self.concrete())


class ShimSet(metaclass=_ShimMeta):
    """set/frozenset whose membership test is symbolic equality (forks), never a hash."""
    _types = (_real.set, _real.frozenset)
    _extra = staticmethod(lambda o: _real.isinstance(o, _SymSet))

    def __new__(cls, it=()):
        it = list(it)
        if it and not has_sym(*it):
            # a mutable set may receive symbolic members later
            pass
        return _SymSet(it)


class _SymSet:
    def __init__(self, it=()):
        self.c = _real.set()
        self.s = []
        for x in it:
            self.add(x)

    def add(self, v):
        if has_sym(v):
            if v not in self:
                self.s.append(v)
        elif not self._in_sym(v):
            self.c.add(v)

    def _in_sym(self, v):
        for x in self.s:
            if x == v:
                return True
        return False

    def __contains__(self, v):
        if has_sym(v):
            for x in self.c:
                if _real.isinstance(x, _real.int) and v == x:
                    return True
        elif v in self.c:
            return True
        return self._in_sym(v)

    def __iter__(self):
        return iter(list(self.c) + self.s)

    def __len__(self):
        return len(self.c) + len(self.s)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def discard(self, v):
        if not has_sym(v):
            self.c.discard(v)
        for i, x in enumerate(self.s):
            if x == v:
                del self.s[i]
                return

    def remove(self, v):
        if v not in self:
            raise KeyError(v)
        self.discard(v)

    def union(self, *its):
        r = _SymSet(self)
        r.update(*its)
        return r
    __or__ = union

    def difference(self, o):
        o = _SymSet(o)
        return _SymSet(x for x in self if x not in o)
    __sub__ = difference
    __rsub__ = lambda self, o: _SymSet(o) - self

    def intersection(self, o):
        o = _SymSet(o)
        return _SymSet(x for x in self if x in o)
    __and__ = intersection

    def issubset(self, o):
        o = _SymSet(o)
        return all(x in o for x in self)
    __le__ = issubset

    def issuperset(self, o):
        return _SymSet(o).issubset(self)
    __ge__ = issuperset

    def __eq__(self, o):
        o = _SymSet(o)
        return self.issubset(o) and o.issubset(self)

    def __ne__(self, o):
        return not self == o

    def copy(self):
        return _SymSet(self)

    def pop(self):
        x = next(iter(self))
        self.discard(x)
        return x


class _Key:
    """stands for a symbolic key in the underlying dictionary"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


def _sym_key(k):
    return any(_sym_key(x) for x in k) if type(k) is tuple else has_sym(k)


class SymDict(dict):
    """a dictionary whose keys may be symbolic: they are compared (which forks), never hashed"""

    def __init__(self, *a, **k):
        super().__init__()
        self.sym = 0
        self.update(*a, **k)

    def _find(self, k):
        """the key of the underlying dictionary which equals k, or k itself"""
        if _sym_key(k):
            for x in super().keys():
                if (x.v if type(x) is _Key else x) == k:
                    return x
        elif self.sym and not super().__contains__(k):
            for x in super().keys():
                if type(x) is _Key and x.v == k:
                    return x
        return k

    def __contains__(self, k):
        f = self._find(k)
        return type(f) is _Key or not _sym_key(f) and super().__contains__(f)

    def __getitem__(self, k):
        f = self._find(k)
        if type(f) is not _Key and (_sym_key(f) or not super().__contains__(f)):
            return self.__missing__(k)
        return super().__getitem__(f)

    def __missing__(self, k):
        raise KeyError(k)

    def __setitem__(self, k, v):
        f = self._find(k)
        if type(f) is not _Key and _sym_key(f):
            f = _Key(k)
            self.sym += 1
        super().__setitem__(f, v)

    def __delitem__(self, k):
        if k not in self:
            raise KeyError(k)
        f = self._find(k)
        self.sym -= type(f) is _Key
        super().__delitem__(f)

    def get(self, k, default=None):
        return self[k] if k in self else default

    def setdefault(self, k, default=None):
        if k not in self:
            self[k] = default
        return self[k]

    def pop(self, k, *default):
        if k not in self and default:
            return default[0]
        v = self[k]
        del self[k]
        return v

    def popitem(self):
        k = list(self)[-1]
        return k, self.pop(k)

    def clear(self):
        super().clear()
        self.sym = 0

    def update(self, *a, **k):
        for o in a:
            for x, v in (((x, o[x]) for x in o.keys()) if hasattr(o, "keys") else o):
                self[x] = v
        for x in k:
            self[x] = k[x]

    def __ior__(self, o):
        self.update(o)
        return self

    def __or__(self, o):
        r = SymDict(self)
        r.update(o)
        return r

    def __iter__(self):
        return (x.v if type(x) is _Key else x for x in super().__iter__()) if self.sym else super().__iter__()

    def keys(self):
        return list(self) if self.sym else super().keys()

    def items(self):
        return [(x.v if type(x) is _Key else x, v) for x, v in super().items()] if self.sym else super().items()

    def __reversed__(self):
        return reversed(list(self))

    def copy(self):
        return SymDict(self)
    __copy__ = copy

    def __eq__(self, o):
        if not self.sym and not getattr(o, "sym", 0):
            return super().__eq__(o)
        return len(self) == len(o) and all(k in o and v == o[k] for k, v in self.items())

    def __ne__(self, o):
        return not self == o
    __hash__ = None

    def __repr__(self):
        return "{%s}" % ", ".join("%r: %r" % x for x in self.items())


class SymDefaultDict(SymDict):
    def __init__(self, factory=None, *a, **k):
        self.default_factory = factory
        super().__init__(*a, **k)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        self[k] = self.default_factory()
        return self[k]

    def copy(self):
        return SymDefaultDict(self.default_factory, self)
    __copy__ = copy


def sym_len(o):
    f = getattr(type(o), "__len__", None)
    if f is None:
        return len(o)
    if type(o).__module__.startswith("flatdata") or getattr(type(o), "_sym_len", False) or \
            type(o).__module__ == "__sym_generated__":
        return f(o)          # len() would force a C ssize_t
    return len(o)


def sym_divmod(a, b):
    if has_sym(a, b):
        return a // b, a % b
    return _real.divmod(a, b)


def _fold(name):
    real = getattr(_real, name)

    def f(*a, **k):
        items = list(a[0]) if len(a) == 1 else list(a)
        if not has_sym(*items) or "key" in k:
            return real(*a, **k)
        if not items:
            return real(*a, **k)
        r = items[0]
        for x in items[1:]:
            if (x < r) if name == "min" else (x > r):
                r = x
        return r
    return f


def sym_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def sym_abs(v):
    return abs(v)


def sym_pow(a, b, *m):
    return a ** b if not m else pow(a, b, *m)


def sym_isinstance(o, t):
    if _real.isinstance(t, tuple):
        return any(sym_isinstance(o, x) for x in t)
    shim = _BY_REAL.get(t)
    return _real.isinstance(o, shim if shim is not None else t)


def sym_type(*a):
    if len(a) == 1:
        o = a[0]
        if isinstance(o, SymInt):
            return _real.int
        if isinstance(o, SymBool):
            return _real.bool
        if isinstance(o, SymBytes):
            return {"bytes": _real.bytes, "bytearray": _real.bytearray,
                    "memoryview": _real.memoryview}[o.kind]
        if isinstance(o, SymStr):
            return _real.str
    return type(*a)


_BY_REAL = {_real.int: ShimInt, _real.bool: ShimBool, _real.bytes: ShimBytes,
            _real.bytearray: ShimBytearray, _real.memoryview: ShimMemoryview,
            _real.str: ShimStr, _real.range: ShimRange, _real.set: ShimSet,
            _real.frozenset: ShimSet}


class ShimStruct:
    """The integer subset of the struct module."""
    error = real_struct.error
    _SIZES = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "?": 1}

    @classmethod
    def _parse(cls, fmt):
        order = "little"
        if fmt[:1] in "<>=!@":
            order = "big" if fmt[0] in ">!" else "little"
            fmt = fmt[1:]
        out, num = [], ""
        for ch in fmt:
            if ch.isdigit():
                num += ch
                continue
            n = _real.int(num) if num else 1
            num = ""
            if ch == "x":
                out += [("x", 1)] * n
            elif ch in cls._SIZES:
                out += [(ch, cls._SIZES[ch])] * n
            else:
                raise Inconclusive("struct format %r" % ch)
        return order, out

    @classmethod
    def calcsize(cls, fmt):
        return sum(n for _, n in cls._parse(fmt)[1])

    @classmethod
    def unpack_from(cls, fmt, b, offset=0):
        order, items = cls._parse(fmt)
        if len(b) < offset + cls.calcsize(fmt):
            raise real_struct.error("buffer too small")
        out, pos = [], offset
        for ch, n in items:
            if ch != "x":
                v = ShimInt.from_bytes(b[pos:pos + n], order, signed=ch.islower() and ch != "?")
                out.append(v != 0 if ch == "?" else v)
            pos += n
        return tuple(out)

    @classmethod
    def unpack(cls, fmt, b):
        if len(b) != cls.calcsize(fmt):
            raise real_struct.error("unpack requires a buffer of %d bytes" % cls.calcsize(fmt))
        return cls.unpack_from(fmt, b)

    @classmethod
    def pack(cls, fmt, *vals):
        order, items = cls._parse(fmt)
        out, vals = [], list(vals)
        for ch, n in items:
            if ch == "x":
                out += [0]
                continue
            v = vals.pop(0)
            try:
                out += _cells_of(v.to_bytes(n, order, signed=ch.islower() and ch != "?"))
            except OverflowError as e:
                raise real_struct.error(str(e))
        return SymBytes(out)

    @classmethod
    def pack_into(cls, fmt, buf, offset, *vals):
        c = cls.pack(fmt, *vals)
        buf[offset:offset + len(c)] = c


SHIMS = {
    "int": ShimInt, "bool": ShimBool, "bytes": ShimBytes, "bytearray": ShimBytearray,
    "memoryview": ShimMemoryview, "str": ShimStr, "range": ShimRange, "len": sym_len,
    "divmod": sym_divmod, "min": _fold("min"), "max": _fold("max"), "sum": sym_sum,
    "set": ShimSet, "frozenset": ShimSet,
    "isinstance": sym_isinstance, "type": sym_type, "abs": sym_abs, "pow": sym_pow,
}
_MISSING = object()


class ShimDifflib:
    """differences only appear in messages"""
    @staticmethod
    def unified_diff(*a, **k):
        return iter(["<difference>"])
    ndiff = context_diff = unified_diff


@contextlib.contextmanager
def shimmed(prefixes=("flatdata",), extra=(), omit=(), overrides=None):
    """Install the shims into the globals of every loaded module of the code under test.
    overrides: {module name: {global: value}}"""
    saved = []

    def put(d, k, v):
        saved.append((d, k, d.get(k, _MISSING)))
        d[k] = v

    mods = [m for n, m in list(sys.modules.items())
            if m is not None and any(n == p or n.startswith(p + ".") for p in prefixes)]
    mods += list(extra)
    try:
        for m in mods:
            d = m.__dict__
            for k, v in SHIMS.items():
                if k in omit:
                    continue
                if k in d:
                    continue        # the module defines its own global of that name
                put(d, k, v)
            for k, v in list(d.items()):
                if v is real_struct:
                    put(d, k, ShimStruct)
                elif v is real_difflib:
                    put(d, k, ShimDifflib)
        for name, kv in (overrides or {}).items():
            d = sys.modules[name].__dict__
            for k, v in kv.items():
                put(d, k, v)
        yield
    finally:
        for d, k, v in reversed(saved):
            if v is _MISSING:
                d.pop(k, None)
            else:
                d[k] = v


# --------------------------------------------------------------------------------------- explorer

class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.branches = 0
        self.obligations = 0
        self.witnesses = 0

    def add(self, o):
        for k in self.__dict__:
            setattr(self, k, getattr(self, k) + getattr(o, k))


class Counterexample(Exception):
    def __init__(self, label, values):
        super().__init__(label)
        self.label = label
        self.values = values


class Explorer:
    """Depth-first exploration of every feasible path of fn(explorer)."""

    def __init__(self, stats=None, max_paths=20000, timeout_ms=120000, concretise_limit=600):
        self.stats = stats or Stats()
        self.max_paths = max_paths
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.concretise_limit = concretise_limit
        self.inputs = {}
        self.literals = {}
        self.rendered = {}
        self.last_paths = 0
        self.reached = 0

    # -- symbolic inputs
    def bv(self, name, bits):
        v = z3.BitVec(name, bits)
        self.inputs[name] = v
        return v

    def int_in(self, name, lo, hi):
        """A symbolic Python int, lo <= x <= hi."""
        v = self.bv(name, _width(lo, hi))
        self.pc_add(z3.And(v >= lo, v <= hi))
        return SymInt(v, lo, hi)

    def bytes(self, name, n, kind="bytes"):
        b = SymBytes.symbolic(name, n, kind)
        for i, c in enumerate(b.cells()):
            self.inputs["%s_%d" % (name, i)] = c
        return b

    def boolean(self, name):
        v = z3.Bool(name)
        self.inputs[name] = v
        return SymBool(v)

    # -- solver
    def _check(self, *a):
        t = time.time()
        if _State.stop is not None and _State.stop(t):
            raise Inconclusive("stopped: out of time, or another harness already found a violation")
        _State.progress = 0.0
        r = self.solver.check(*a)
        _State.progress = time.time()
        self.stats.solver_s += _State.progress - t
        self.stats.queries += 1
        if r == z3.unknown:
            raise Inconclusive("solver: unknown (%s)" % self.solver.reason_unknown())
        return r

    def pc_add(self, t):
        self.solver.add(t)

    speculating = False

    def assume(self, cond):
        if self.speculating:
            raise Speculation()
        if isinstance(cond, SymBool):
            self.pc_add(cond.t)
            if self._check() == z3.unsat:
                raise PathAbort()
        elif not cond:
            raise PathAbort()

    def branch(self, t):
        if self.speculating:
            raise Speculation()
        self.stats.branches += 1
        if self.pos < len(self.trace):
            d = self.trace[self.pos][0]
            self.pos += 1
            self.pc_add(t if d else z3.Not(t))
            return d
        can_t = self._check(t) == z3.sat
        can_f = True
        if can_t:
            can_f = self._check(z3.Not(t)) == z3.sat
        if not can_t and not can_f:
            raise PathAbort()
        d = can_t
        self.trace.append([d, can_t and can_f])
        self.pos += 1
        self.pc_add(t if d else z3.Not(t))
        return d

    def concretise(self, v):
        """Fork over all feasible values of v."""
        if v.lo == v.hi:
            return v.lo
        if self.speculating:
            raise Speculation()
        n = 0
        while True:
            if v.lo == v.hi:
                return v.lo
            if self.pos < len(self.trace) and len(self.trace[self.pos]) == 3:
                guess = self.trace[self.pos][2]
            else:
                if self._check() != z3.sat:
                    raise PathAbort()
                guess = self.solver.model().eval(v.t, model_completion=True).as_signed_long()
            eq = v.t == z3.BitVecVal(guess, v.t.size())
            if self.pos < len(self.trace):
                d = self.trace[self.pos][0]
                self.pos += 1
            else:
                other = self._check(z3.Not(eq)) == z3.sat
                d = True
                self.trace.append([True, other, guess])
                self.pos += 1
            self.pc_add(eq if d else z3.Not(eq))
            if d:
                return guess
            n += 1
            if n > self.concretise_limit:
                raise Inconclusive("concretisation limit")

    def render(self, v):
        """Text form of a symbolic integer: a token that `ShimInt` maps back to the same term."""
        key = v.t.get_id()
        if key not in self.rendered:
            tok = "9%08d7" % (len(self.rendered) + 1)
            self.rendered[key] = (tok, v)
            self.literals[tok] = v
        return self.rendered[key][0]

    def literal(self, v):
        """Schema literal (decimal text) standing for the symbolic integer v."""
        return self.render(v) if isinstance(v, SymInt) else str(v)

    def value(self, v):
        """Maps a rendered token (text or int) back to its symbolic value."""
        return self.literals.get(str(v).strip(), v)

    def same_text(self, a, b, label):
        """Texts are equal; rendered tokens are compared as the values they stand for."""
        pa, pb = re.split(r"(9\d{8}7)", a), re.split(r"(9\d{8}7)", b)
        if len(pa) != len(pb):
            self.prove(False, label)
        conj = []
        for x, y in zip(pa, pb):
            if x == y:
                continue
            vx, vy = self.literals.get(x), self.literals.get(y)
            if vx is None and vy is None:
                self.prove(False, label)
            conj.append((vx if vx is not None else _real.int(x)) ==
                        (vy if vy is not None else _real.int(y)))
        self.prove(sand(*conj), label)

    # -- obligations
    def prove(self, cond, label):
        """cond must hold on the current path for every value of the inputs."""
        if self.speculating and cond is not True:
            raise Speculation()
        self.stats.obligations += 1
        self.reached += 1
        if cond is True:
            return
        if cond is False:
            if self._check() != z3.sat:
                raise PathAbort()
        else:
            t = cond.t if isinstance(cond, SymBool) else cond
            if self._check(z3.Not(t)) == z3.unsat:
                return
        m = self.solver.model()
        raise Counterexample(label, self._values(m))

    def _values(self, m):
        out = {}
        for k, v in self.inputs.items():
            x = m.eval(v, model_completion=True)
            if z3.is_bool(v):
                out[k] = z3.is_true(x)
            else:
                out[k] = x.as_signed_long()
        return out

    def witness(self):
        """Some concrete input reaching this point (reachability witness)."""
        if self._check() != z3.sat:
            raise PathAbort()
        self.stats.witnesses += 1
        return self._values(self.solver.model())

    def samples(self, n):
        """Up to n different inputs reaching this point, where symbolic execution cannot go on."""
        out = []
        rnd = random.Random(1)
        names = sorted(self.inputs)
        self.solver.set("timeout", 5000)
        try:
            for k in range(n):
                self.solver.push()
                try:
                    if self._check() != z3.sat:
                        break
                    for name in rnd.sample(names, min(len(names), 4)) if k else ():
                        v = self.inputs[name]
                        if z3.is_bool(v):
                            t = v == rnd.choice((True, False))
                        else:
                            b = v.size()
                            t = v == rnd.choice((0, 1, -1, 1 << (b - 1), (1 << (b - 1)) - 1, rnd.getrandbits(b)))
                        if self._check(t) == z3.sat:
                            self.solver.add(t)
                    self._check()
                    x = self._values(self.solver.model())
                    if x not in out:
                        out.append(x)
                except Inconclusive:
                    pass
                finally:
                    self.solver.pop()
        except z3.Z3Exception:
            pass
        return out

    def run(self, fn):
        """Runs fn(self) on every feasible path. Raises Counterexample on the first violation."""
        self.trace = []
        n = 0
        self.reached = 0
        prev = _State.explorer
        _State.explorer = self
        try:
            while True:
                self.pos = 0
                self.inputs = {}
                self.literals = {}
                self.rendered = {}
                self.solver.push()
                try:
                    fn(self)
                except PathAbort:
                    pass
                finally:
                    self.solver.pop()
                n += 1
                self.stats.paths += 1
                if _State.stop is not None and _State.stop(time.time()):
                    raise Inconclusive("stopped: out of time, or another harness already found a violation")
                if n > self.max_paths:
                    raise Inconclusive("path limit %d" % self.max_paths)
                # backtrack
                while self.trace and not (self.trace[-1][0] and self.trace[-1][1]):
                    self.trace.pop()
                if not self.trace:
                    break
                self.trace[-1] = [False] + self.trace[-1][1:]
        finally:
            _State.explorer = prev
        self.last_paths = n
        if self.reached == 0:
            raise Inconclusive("vacuous: no path reached an obligation")
        return n


def sand(*cs):
    ts = []
    for c in cs:
        if c is False:
            return False
        if c is True:
            continue
        ts.append(c.t if isinstance(c, SymBool) else c)
    if not ts:
        return True
    return SymBool.mk(z3.And(*ts))
