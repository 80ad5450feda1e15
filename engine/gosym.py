"""
Symbolic execution of Go: an interpreter of the SSA form which go/ssa builds from the real sources
(gossa/main.go writes it as JSON).  Values are those of pysym (solver terms with exact ranges); every
arithmetic result is wrapped to its Go type.  Panics are outcomes (GoPanic).
"""
import posixpath
import re

import z3
import pysym
from pysym import SymInt, SymBool, SymBytes, Inconclusive


class GoPanic(Exception):
    pass


SIZES = {"int": (64, 1), "int8": (8, 1), "int16": (16, 1), "int32": (32, 1), "int64": (64, 1), "rune": (32, 1),
         "uint": (64, 0), "uint8": (8, 0), "byte": (8, 0), "uint16": (16, 0), "uint32": (32, 0), "uint64": (64, 0),
         "uintptr": (64, 0), "untyped int": (64, 1), "untyped rune": (32, 1)}


class Ref:
    """pointer to obj[key]"""
    __slots__ = ("obj", "key")

    def __init__(self, obj, key):
        self.obj, self.key = obj, key

    def load(self):
        v = self.obj[self.key]
        return v.copy() if isinstance(v, Agg) else v

    def store(self, v):
        cur = self.obj[self.key]
        if isinstance(v, Agg):
            cur[:] = v.copy()           # keeps pointers into the variable valid
        else:
            self.obj[self.key] = v

    def same(self, o):
        return isinstance(o, Ref) and self.obj is o.obj and self.key == o.key


class Agg(list):
    """struct or array value"""
    def copy(self):
        return Agg(x.copy() if isinstance(x, Agg) else x for x in self)


class Slice:
    __slots__ = ("arr", "off", "len", "cap")

    def __init__(self, arr, off, n, cap):
        self.arr, self.off, self.len, self.cap = arr, off, n, cap

    def items(self):
        return self.arr[self.off:self.off + self.len]


class Iface:
    __slots__ = ("t", "v", "methods")

    def __init__(self, t, v, methods):
        self.t, self.v, self.methods = t, v, methods


class Map:
    def __init__(self):
        self.items = []


class Err:
    """error value of the standard library"""
    def __init__(self, text):
        self.text = text


def wrap(v, bits, signed):
    if isinstance(v, int):
        v &= (1 << bits) - 1
        return v - ((v >> (bits - 1)) << bits) if signed else v
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    if v.lo >= lo and v.hi <= hi:
        return v
    t = z3.simplify(z3.Extract(bits - 1, 0, v.at(max(bits, v.t.size()))))
    if z3.is_bv_value(t):
        return t.as_signed_long() if signed else t.as_long()
    return SymInt.signed(t) if signed else SymInt.unsigned(t)


class Program:
    def __init__(self, d):
        self.funcs, self.types, self.gtypes = d["funcs"], d["types"], d["globals"]
        self.used = set()

    # ---- types
    def under(self, t):
        j = self.types[t]
        while j["kind"] == "named":
            j = self.types[j["u"]]
        return j

    def zero(self, t):
        j = self.under(t)
        k = j["kind"]
        if k == "basic":
            b = j["basic"]
            return False if b in ("bool", "untyped bool") else b"" if "string" in b else 0.0 if "float" in b else 0
        if k == "struct":
            return Agg(self.zero(f) for f in j["f"])
        if k == "array":
            return Agg(self.zero(j["e"]) for _ in range(j["n"]))
        if k == "slice":
            return Slice([], 0, 0, 0)
        return None

    def size(self, t):
        j = self.under(t)
        return SIZES.get(j.get("basic")) if j["kind"] == "basic" else None

    def is_string(self, t):
        j = self.under(t)
        return j["kind"] == "basic" and "string" in j["basic"]


class Machine:
    MAX_STEPS = 400000

    def __init__(self, prog):
        self.p = prog
        self.globals = {n: [None] for n in prog.gtypes}
        for n, t in prog.gtypes.items():
            self.globals[n][0] = prog.zero(prog.types[t]["e"])
        self.globals["io.EOF"] = [Iface("*errors.errorString", Err(b"EOF"), {})]
        self.steps = 0
        self.ready = set()
        for f in prog.funcs:
            if f.endswith(".init") and prog.funcs[f].get("pkg") and prog.funcs[f].get("blocks"):
                if f not in self.ready:
                    self.ready.add(f)
                    self.call(f, [])

    # ---- calls
    def call(self, name, args):
        lib = LIB.get(name)
        if lib:
            return lib(self, *args)
        f = self.p.funcs.get(name)
        if f is None or not f.get("blocks"):
            if name.endswith(".init") or name.startswith(("log.", "fmt.Print")):
                return None
            raise Inconclusive("Go function %s is not modelled" % name)
        if name.endswith(".init") and name not in self.ready:
            self.ready.add(name)
        self.p.used.add(name)
        regs = dict(zip(f["params"], args))
        b, prev = 0, None
        while True:
            blk = f["blocks"][b]
            edge = blk["p"].index(prev) if prev is not None else 0
            phis = {}
            for i in blk["i"]:
                if i["op"] != "phi":
                    break
                phis[i["r"]] = self.val(i["e"][edge], regs)
            regs.update(phis)
            nxt = None
            for i in blk["i"]:
                op = i["op"]
                if op == "phi":
                    continue
                self.steps += 1
                if self.steps > self.MAX_STEPS:
                    raise Inconclusive("too many steps in Go code")
                if op == "if":
                    nxt = blk["s"][0] if bool(self.val(i["x"], regs)) else blk["s"][1]
                elif op == "jump":
                    nxt = blk["s"][0]
                elif op == "return":
                    r = [self.val(x, regs) for x in i["e"]]
                    return r[0] if len(r) == 1 else tuple(r) if r else None
                elif op == "panic":
                    raise GoPanic("panic")
                else:
                    v = self.step(i, op, regs)
                    if "r" in i:
                        regs[i["r"]] = v
            prev, b = b, nxt

    def val(self, o, regs):
        if o is None:
            return None
        k = o["k"]
        if k == "reg":
            return regs[o["n"]]
        if k == "const":
            if "s" in o:
                return bytes(o["s"])
            if "b" in o:
                return o["b"]
            if "v" in o:
                n = int(o["v"])
                return float(n) if self.p.under(o["t"]).get("basic", "").startswith("float") else n
            if "f" in o:
                return float(o["f"])
            return self.p.zero(o["t"])
        if k == "global":
            if o["n"] not in self.globals:
                t = self.p.types[o["t"]]["e"]
                self.globals[o["n"]] = [self.p.zero(t)]
            return Ref(self.globals[o["n"]], 0)
        if k in ("func", "builtin"):
            return (k, o["n"])
        raise Inconclusive(k)

    def deref(self, p):
        if p is None:
            raise GoPanic("nil pointer dereference")
        return p

    def bound(self, i, n):
        """index check; returns a concrete index"""
        if not bool(pysym.sand(i >= 0, i < n)):
            raise GoPanic("index out of range")
        return i if isinstance(i, int) else i.__index__()

    def step(self, i, op, R):
        V = lambda n: self.val(i.get(n), R)
        p = self.p
        if op == "alloc":
            return Ref([p.zero(p.types[i["t"]]["e"])], 0)
        if op == "binop":
            return self.binop(i, V("x"), V("y"))
        if op == "unop":
            x = V("x")
            o = i["o"]
            if o == "*":
                return self.deref(x).load()
            if o == "!":
                return snot(x)
            if o == "-":
                return -x if isinstance(x, float) else wrap(0 - x, *p.size(i["t"]))
            if o == "^":
                return wrap(-1 - x, *p.size(i["t"]))
        if op == "store":
            self.deref(V("x")).store(V("y"))
            return None
        if op == "fieldaddr":
            return Ref(self.deref(V("x")).obj[V("x").key], i["i"])
        if op == "field":
            v = V("x")[i["i"]]
            return v.copy() if isinstance(v, Agg) else v
        if op == "indexaddr":
            x, k = V("x"), self.val(i["i"], R)
            if isinstance(x, Slice):
                return Ref(x.arr, x.off + self.bound(k, x.len))
            a = self.deref(x).obj[x.key]
            return Ref(a, self.bound(k, len(a)))
        if op == "index":
            x, k = V("x"), self.val(i["i"], R)
            return x[self.bound(k, len(x))]
        if op == "convert":
            return self.convert(i, V("x"))
        if op == "copy":
            return V("x")
        if op == "makeiface":
            return Iface(p.types[i["xt"]]["name"], V("x"), i["methods"])
        if op == "typeassert":
            x = V("x")
            want = p.types[i["at"]]["name"]
            ok = x is not None and (bool(i["iface"]) or x.t == want)
            if i["commaok"]:
                return ((x if i["iface"] else x.v) if ok else p.zero(i["at"]), ok)
            if not ok:
                raise GoPanic("interface conversion")
            return x if i["iface"] else x.v
        if op == "extract":
            return V("x")[i["i"]]
        if op == "makemap":
            return Map()
        if op == "mapupdate":
            m, k, v = V("x"), self.val(i["i"], R), V("y")
            for e in m.items:
                if bool(same(e[0], k)):
                    e[1] = v
                    return None
            m.items.append([k, v])
            return None
        if op == "lookup":
            m, k = V("x"), self.val(i["i"], R)
            if p.is_string(i["xt"]):
                return m[self.bound(k, len(m))]
            for e in (m.items if m is not None else []):
                if bool(same(e[0], k)):
                    return (e[1], True) if i["commaok"] else e[1]
            z = p.zero(p.under(i["xt"])["e"])
            return (z, False) if i["commaok"] else z
        if op == "makeslice":
            n, c = V("x"), V("y")
            if not bool(pysym.sand(n >= 0, n <= (1 << 16))):
                raise GoPanic("makeslice: len out of range")     # or out of memory
            n = n if isinstance(n, int) else n.__index__()
            e = p.under(i["t"])["e"]
            c = max(n, c if isinstance(c, int) else n)
            return Slice([p.zero(e) for _ in range(c)], 0, n, c)
        if op == "slice":
            return self.slice(i, V("x"), V("lo"), V("hi"), V("max"))
        if op == "call":
            c = i["call"]
            args = [self.val(a, R) for a in c["args"]]
            if "invoke" in c:
                r = self.val(c["recv"], R)
                if r is None:
                    raise GoPanic("nil interface")
                if isinstance(r.v, Err):
                    return r.v.text
                return self.call(r.methods[c["invoke"]], [r.v] + args)
            f = self.val(c["f"], R)
            if f[0] == "builtin":
                return self.builtin(f[1], args, i)
            return self.call(f[1], args)
        raise Inconclusive("Go instruction %s" % op)

    def slice(self, i, x, lo, hi, mx):
        if isinstance(x, (bytes, SymBytes)):
            n = len(x)
            lo, hi = 0 if lo is None else lo, n if hi is None else hi
            if not bool(pysym.sand(lo >= 0, lo <= hi, hi <= n)):
                raise GoPanic("slice bounds")
            return x[lo.__index__():hi.__index__()]
        if isinstance(x, Ref):
            a = x.obj[x.key]
            x = Slice(a, 0, len(a), len(a))
        lo, hi = 0 if lo is None else lo, x.len if hi is None else hi
        mx = x.cap if mx is None else mx
        if not bool(pysym.sand(lo >= 0, lo <= hi, hi <= mx, mx <= x.cap)):
            raise GoPanic("slice bounds")
        lo, hi, mx = lo.__index__(), hi.__index__(), mx.__index__()
        return Slice(x.arr, x.off + lo, hi - lo, mx - lo)

    def builtin(self, name, a, i):
        if name == "len":
            x = a[0]
            return 0 if x is None else x.len if isinstance(x, Slice) else len(x.items) if isinstance(x, Map) else len(x)
        if name == "cap":
            return a[0].cap
        if name == "append":
            x, y = a[0], a[1]
            items = y.items() if isinstance(y, Slice) else list(y) if y is not None else []
            arr = (x.items() if x is not None else []) + [v.copy() if isinstance(v, Agg) else v for v in items]
            return Slice(arr, 0, len(arr), len(arr))
        if name == "copy":
            d, s = a
            src = s.items() if isinstance(s, Slice) else list(s)
            n = min(d.len, len(src))
            for k in range(n):
                d.arr[d.off + k] = src[k]
            return n
        if name.startswith("ssa:wrapnilchk"):
            return self.deref(a[0])
        if name.startswith("print"):
            return None
        raise Inconclusive("Go builtin " + name)

    def convert(self, i, x):
        p = self.p
        to, frm = i["t"], i["xt"]
        s = p.size(to)
        if isinstance(x, float):
            return wrap(int(x), *s) if s else x
        if s and p.size(frm):
            return wrap(x, *s)
        ft = p.under(to)
        if ft["kind"] == "basic" and ft["basic"].startswith("float"):
            if isinstance(x, int):
                return float(x)
            raise Inconclusive("symbolic floating point")
        if p.is_string(to) and isinstance(x, Slice):
            return SymBytes([pysym._int_to_cell(c) for c in x.items()])
        if ft["kind"] == "slice" and isinstance(x, (bytes, SymBytes)):
            c = list(x)
            return Slice(c, 0, len(c), len(c))
        raise Inconclusive("Go conversion")

    def binop(self, i, x, y):
        o = i["o"]
        if o in ("==", "!="):
            r = same(x, y)
            return r if o == "==" else snot(r)
        if isinstance(x, (bytes, SymBytes)):
            if o == "+":
                return x + y
            raise Inconclusive("Go string operator " + o)
        if isinstance(x, float):
            return {"+": x + y, "-": x - y, "*": x * y}[o]
        if o in ("<", "<=", ">", ">="):
            return x < y if o == "<" else x <= y if o == "<=" else x > y if o == ">" else x >= y
        bits, signed = self.p.size(i["t"])
        if o == "+":
            r = x + y
        elif o == "-":
            r = x - y
        elif o == "*":
            r = x * y
        elif o == "&":
            r = x & y
        elif o == "|":
            r = x | y
        elif o == "^":
            r = x ^ y
        elif o == "&^":
            r = x & (-1 - y)
        elif o in ("/", "%"):
            if bool(y == 0):
                raise GoPanic("division by zero")
            neg = bool(x < 0) if signed else False
            ny = bool(y < 0) if signed else False
            ax, ay = (0 - x if neg else x), (0 - y if ny else y)
            if o == "/":
                r = ax // ay
                r = 0 - r if neg != ny else r
            else:
                r = ax % ay
                r = 0 - r if neg else r
        elif o in ("<<", ">>"):
            if bool(y < 0):
                raise GoPanic("negative shift")
            if bool(y >= bits):
                return (0 if o == "<<" or not signed else (-1 if bool(x < 0) else 0))
            r = x << y if o == "<<" else x >> y
        else:
            raise Inconclusive("Go operator " + o)
        return wrap(r, bits, signed)


def snot(x):
    return SymBool(z3.Not(x.t)) if isinstance(x, SymBool) else not x


def cells(d):
    return list(d)


def byte_slice(d):
    c = cells(d)
    return Slice(c, 0, len(c), len(c))


def int_slice(a):
    return Slice(list(a), 0, len(a), len(a))


def same(x, y):
    if isinstance(x, Ref) or isinstance(y, Ref):
        return x.same(y) if isinstance(x, Ref) else False
    if isinstance(x, Slice) or isinstance(y, Slice):    # comparison with nil only
        s = x if isinstance(x, Slice) else y
        return s.cap == 0
    if isinstance(x, Iface) and isinstance(y, Iface):
        return x is y or (x.t == y.t and same(x.v, y.v))
    if x is None or y is None or isinstance(x, (Iface, Err, Map)):
        return x is y
    if isinstance(x, (bytes, SymBytes)):
        if len(x) != len(y):
            return False
        return pysym.sand(*[a == b for a, b in zip(list(x), list(y))])
    return x == y


LIB = {}


def lib(*names):
    def deco(f):
        for n in names:
            LIB[n] = f
        return f
    return deco


def _err(text):
    return Iface("*errors.errorString", Err(text), {})


@lib("errors.New")
def _new(m, s):
    return _err(s)


@lib("fmt.Errorf")
def _errorf(m, f, *a):
    return _err(b"formatted")


@lib("fmt.Sprintf", "fmt.Sprint")
def _sprintf(m, *a):
    return b"formatted"


@lib("log.Println", "log.Printf", "(*bytes.Buffer).WriteString")
def _log(m, *a):
    return (0, None)


@lib("math.Exp2")
def _exp2(m, x):
    return 2.0 ** x


@lib("(encoding/binary.littleEndian).Uint64")
def _le64(m, recv, b):
    if b.len < 8:
        raise GoPanic("index out of range")
    r = 0
    for k in range(8):
        r = r | (b.arr[b.off + k] << (8 * k))
    return r


@lib("path/filepath.Join")
def _join(m, s):
    parts = [bytes(x) for x in s.items() if len(x)]
    return posixpath.normpath(b"/".join(parts)) if parts else b""


@lib("path/filepath.Dir")
def _dir(m, s):
    s = bytes(s)
    d = s[:s.rfind(b"/") + 1]
    return posixpath.normpath(d) if d else b"."


@lib("os.ReadFile", "io/ioutil.ReadFile")
def _read_file(m, name):
    d = m.fs.get(bytes(name))
    return (Slice([], 0, 0, 0), _err(b"no such file")) if d is None else (byte_slice(d), None)
