"""Reader for textual LLVM IR (the subset emitted by clang -O1/-O2 and rustc for this project)."""
import re

TOK = re.compile(r'''
    (?P<str>c?"(?:[^"])*")
  | (?P<loc>%"[^"]*"|%[-\w.$]+)
  | (?P<glob>@"[^"]*"|@[-\w.$]+)
  | (?P<meta>![-\w.]*(?:\([^)]*\))?|\#\d+)
  | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[0-9A-Fa-fKLMHR]+)
  | (?P<word>[A-Za-z_$.][\w.$]*)
  | (?P<p>\.\.\.|[\[\]{}()<>,=*:|^])
''', re.X)


class IRError(Exception):
    pass


class T:
    """type: kind in i, ptr, arr, st, void, vec, f"""
    __slots__ = ("kind", "n", "elems", "packed", "_size", "_align", "_offs")

    def __init__(self, kind, n=0, elems=None, packed=False):
        self.kind, self.n, self.elems, self.packed = kind, n, elems, packed
        self._size = self._align = self._offs = None

    def __repr__(self):
        if self.kind == "i":
            return "i%d" % self.n
        if self.kind in ("arr", "vec"):
            return "[%d x %r]" % (self.n, self.elems)
        if self.kind == "st":
            return "{%s}" % ", ".join(map(repr, self.elems))
        return self.kind


PTR, VOID = T("ptr"), T("void")
INT = {}


def ity(n):
    if n not in INT:
        INT[n] = T("i", n)
    return INT[n]


def align_of(t):
    if t._align is None:
        if t.kind == "i":
            n = (t.n + 7) // 8
            a = 1
            while a < n and a < 16:
                a *= 2
            t._align = a
        elif t.kind == "ptr":
            t._align = 8
        elif t.kind == "f":
            t._align = t.n // 8
        elif t.kind == "arr":
            t._align = align_of(t.elems)
        elif t.kind == "vec":
            t._align = size_of(t)
        elif t.kind == "st":
            t._align = 1 if t.packed else max([align_of(e) for e in t.elems] or [1])
        else:
            raise IRError("align of %r" % t)
    return t._align


def size_of(t):
    """allocation size"""
    if t._size is None:
        if t.kind == "i":
            n = (t.n + 7) // 8
            a = align_of(t)
            t._size = (n + a - 1) // a * a
        elif t.kind == "ptr":
            t._size = 8
        elif t.kind == "f":
            t._size = t.n // 8
        elif t.kind == "arr":
            t._size = t.n * size_of(t.elems)
        elif t.kind == "vec":
            t._size = t.n * size_of(t.elems)
        elif t.kind == "st":
            t._size = (offsets(t) or [0])[-1]
        else:
            raise IRError("size of %r" % t)
    return t._size


def offsets(t):
    """field offsets of a struct, plus its size as last entry"""
    if t._offs is None:
        o, out = 0, []
        for e in t.elems:
            if not t.packed:
                a = align_of(e)
                o = (o + a - 1) // a * a
            out.append(o)
            o += size_of(e)
        if not t.packed:
            a = align_of(t)
            o = (o + a - 1) // a * a
        out.append(o)
        t._offs = out
    return t._offs


class Undef:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


class Global:
    """address of a global"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class ConstExpr:
    __slots__ = ("op", "args")

    def __init__(self, op, *args):
        self.op, self.args = op, args


class Reg:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


def cstring(tok):
    """bytes of c"..." """
    s = tok[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode("latin1") if ord(s[i]) < 256 else s[i].encode("utf8")
            i += 1
    return bytes(out)


PARAM_ATTRS = {"align", "dereferenceable", "dereferenceable_or_null", "range", "captures", "initializes",
               "nofpclass", "memory", "elementtype", "allocsize", "vscale_range", "alignstack"}


class Parser:
    def __init__(self, text, types):
        self.toks = []
        for m in TOK.finditer(text):
            k = m.lastgroup
            if k == "meta":
                continue
            self.toks.append((k, m.group()))
        self.i = 0
        self.types = types

    def peek(self):
        return self.toks[self.i][1] if self.i < len(self.toks) else None

    def kind(self):
        return self.toks[self.i][0] if self.i < len(self.toks) else None

    def next(self):
        t = self.toks[self.i][1]
        self.i += 1
        return t

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise IRError("expected %r, got %r near %r" % (s, self.peek(), " ".join(t for _, t in self.toks[max(0, self.i - 8):self.i + 5])))

    def type(self):
        t = self.next()
        if re.fullmatch(r"i\d+", t):
            r = ity(int(t[1:]))
        elif t == "ptr":
            r = PTR
            if self.peek() == "addrspace":
                self.next(); self.expect("("); self.next(); self.expect(")")
        elif t == "void":
            r = VOID
        elif t in ("float", "double", "half", "x86_fp80", "fp128"):
            r = T("f", {"float": 32, "double": 64, "half": 16, "x86_fp80": 128, "fp128": 128}[t])
        elif t in ("metadata", "label", "token"):
            r = T(t)
        elif t == "[":
            n = int(self.next()); self.expect("x"); e = self.type(); self.expect("]")
            r = T("arr", n, e)
        elif t == "<":
            if self.peek() == "{":
                self.next()
                es = self.type_list("}")
                self.expect(">")
                r = T("st", 0, es, True)
            else:
                n = int(self.next()); self.expect("x"); e = self.type(); self.expect(">")
                r = T("vec", n, e)
        elif t == "{":
            r = T("st", 0, self.type_list("}"))
        elif t[0] == "%":
            r = self.types.get(t.replace('"', ""))
            if r is None:
                raise IRError("unknown type %s" % t)
            r = r() if callable(r) else r
        else:
            raise IRError("type? %r near %r" % (t, " ".join(x for _, x in self.toks[max(0, self.i - 8):self.i + 5])))
        # function types: ret (args)
        if self.peek() == "(" and r.kind != "metadata":
            save = self.i
            try:
                self.next()
                while self.peek() != ")":
                    if self.peek() == "...":
                        self.next()
                    else:
                        self.type()
                    if not self.accept(","):
                        break
                self.expect(")")
                r2 = T("fn", 0, r)
                return r2
            except (IRError, IndexError, TypeError, KeyError):
                self.i = save
        return r

    def type_list(self, end):
        out = []
        if self.accept(end):
            return out
        while True:
            out.append(self.type())
            if self.accept(","):
                continue
            self.expect(end)
            return out

    def attrs(self):
        """skips parameter attributes; returns the byval type if any"""
        byval = None
        while self.kind() in ("word", "str"):
            w = self.peek()
            if w in ("byval", "sret", "inalloca", "preallocated", "byref", "elementtype"):
                self.next()
                if self.accept("("):
                    t = self.type()
                    self.expect(")")
                    if w == "byval":
                        byval = t
                continue
            if w in PARAM_ATTRS:
                self.next()
                if self.peek() == "(":
                    self.skip_parens()
                elif w in ("align",):
                    self.next()
                continue
            if w in ("noundef", "nonnull", "readonly", "writeonly", "readnone", "nocapture", "noalias", "signext",
                     "zeroext", "inreg", "nest", "returned", "immarg", "swiftself", "noext", "dead_on_unwind", "writable",
                     "nofree", "dead_on_return", "noundef", "dso_local", "local_unnamed_addr", "unnamed_addr",
                     "dso_preemptable", "inrange", "nonlazybind", "allocptr", "allocalign"):
                self.next()
                continue
            if self.kind() == "str" or self.kind() == "word" and "=" == (self.toks[self.i + 1][1] if self.i + 1 < len(self.toks) else ""):
                if self.kind() == "str":
                    self.next()
                    if self.accept("="):
                        self.next()
                    continue
            break
        return byval

    def skip_parens(self):
        self.expect("(")
        d = 1
        while d:
            t = self.next()
            d += (t == "(") - (t == ")")

    def value(self, t):
        """operand of type t"""
        k, s = self.toks[self.i]
        if k == "loc":
            self.i += 1
            return Reg(s.replace('"', ""))
        if k == "glob":
            self.i += 1
            return Global(s.replace('"', ""))
        if k == "num":
            self.i += 1
            if t.kind == "f":
                return ConstExpr("float", s)
            return int(s) & ((1 << (t.n or 64)) - 1) if t.kind == "i" else int(s)
        if k == "str":
            self.i += 1
            return list(cstring(s))
        self.i += 1
        if s == "null":
            return 0
        if s == "true":
            return 1
        if s == "false":
            return 0
        if s in ("undef", "poison"):
            return Undef(t)
        if s == "zeroinitializer":
            return zero(t)
        if s == "none":
            return 0
        if s == "[" or s == "{":
            end = "]" if s == "[" else "}"
            return self.value_list(end)
        if s == "<":
            if self.accept("{"):
                v = self.value_list("}")
                self.expect(">")
                return v
            return self.value_list(">")
        if s == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw", "inrange"):
                self.next()
                if self.peek() == "(" and self.toks[self.i - 1][1] == "inrange":
                    self.skip_parens()
            self.expect("(")
            st = self.type()
            self.expect(",")
            args = []
            while True:
                self.accept("inrange")
                at = self.type()
                args.append((at, self.value(at)))
                if not self.accept(","):
                    break
            self.expect(")")
            return ConstExpr("gep", st, args)
        if s in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
            self.expect("(")
            ft = self.type()
            v = self.value(ft)
            self.expect("to")
            tt = self.type()
            self.expect(")")
            return ConstExpr("cast", s, ft, v, tt)
        if s in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr"):
            while self.peek() in ("nuw", "nsw"):
                self.next()
            self.expect("(")
            ft = self.type()
            a = self.value(ft)
            self.expect(",")
            self.type()
            b = self.value(ft)
            self.expect(")")
            return ConstExpr("bin", s, ft, a, b)
        if s == "blockaddress":
            self.skip_parens()
            return 0
        if s in ("dso_local_equivalent", "no_cfi"):
            return self.value(t)
        if s == "splat":
            self.expect("(")
            et = self.type()
            v = self.value(et)
            self.expect(")")
            return [v] * t.n
        raise IRError("value? %r near %r" % (s, " ".join(x for _, x in self.toks[max(0, self.i - 8):self.i + 5])))

    def value_list(self, end):
        out = []
        if self.accept(end):
            return out
        while True:
            t = self.type()
            out.append(self.value(t))
            if self.accept(","):
                continue
            self.expect(end)
            return out

    def typed(self):
        t = self.type()
        return t, self.value(t)


def zero(t):
    if t.kind == "arr" or t.kind == "vec":
        return [zero(t.elems) for _ in range(t.n)]
    if t.kind == "st":
        return [zero(e) for e in t.elems]
    if t.kind == "f":
        return ConstExpr("float", "0.0")
    return 0


FLAGS = {"nuw", "nsw", "exact", "disjoint", "nneg", "samesign", "inbounds", "nusw", "fast", "nnan", "ninf", "nsz",
         "arcp", "contract", "afn", "reassoc"}
CC = {"fastcc", "ccc", "coldcc", "tailcc", "cc"}
BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"}
FBIN = {"fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "addrspacecast", "fptoui", "fptosi", "uitofp",
         "sitofp", "fpext", "fptrunc"}


class Ins:
    __slots__ = ("op", "dst", "t", "a")

    def __init__(self, op, dst, t, *a):
        self.op, self.dst, self.t, self.a = op, dst, t, a


NOTHING = re.compile(r"(tail )?call void @llvm\.(lifetime\.|assume|experimental\.noalias\.scope|dbg\.)")


class Function:
    def __init__(self, mod, name, header, lines):
        self.mod, self.name, self.header, self.lines = mod, name, header, lines
        self.blocks = None

    def parse(self):
        if self.blocks is not None:
            return self
        p = Parser(self.header, self.mod.types)
        # up to the function name
        while p.kind() != "glob":
            p.i += 1
        p.next()
        p.expect("(")
        self.params = []
        n_unnamed = 0
        self.vararg = False
        if not p.accept(")"):
            while True:
                if p.accept("..."):
                    self.vararg = True
                else:
                    t = p.type()
                    bv = p.attrs()
                    if p.kind() == "loc":
                        nm = p.next().replace('"', "")
                        if re.fullmatch(r"%\d+", nm):
                            n_unnamed += 1
                    else:
                        nm = "%%%d" % n_unnamed
                        n_unnamed += 1
                    self.params.append((nm, t, bv))
                if not p.accept(","):
                    break
            p.expect(")")
        self.blocks = {}
        self.entry = None
        cur, name = None, None
        lines = self.lines
        i = 0
        while i < len(lines):
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s[0] == ";" or NOTHING.match(s):
                continue
            m = re.match(r'^("[^"]*"|[-\w.$]+):', ln)
            if m:
                name = "%" + m.group(1).replace('"', "")
                cur = self.blocks[name] = []
                if self.entry is None:
                    self.entry = name
                continue
            if s.startswith("#dbg"):
                continue
            if cur is None:
                name = "%%%d" % n_unnamed
                self.entry = name
                cur = self.blocks[name] = []
            if s.startswith("switch "):
                while "]" not in s:
                    s += " " + lines[i].strip()
                    i += 1
            if re.match(r"(%\S+ = )?invoke\s", s) and "unwind label" not in s:
                while "unwind label" not in s:
                    s += " " + lines[i].strip()
                    i += 1
            if re.search(r"= landingpad\b", s):
                while i < len(lines) and re.match(r"\s+(cleanup|catch|filter)\b", lines[i]):
                    s += " " + lines[i].strip()
                    i += 1
            s = re.sub(r",? ![\w.]+ !\d+|,? ![\w.]+ !\{[^}]*\}|,? !srcloc !\d+|; .*$", "", s) if "!" in s or ";" in s else s
            cur.append(self.instr(s))
        return self

    def instr(self, s):
        p = Parser(s, self.mod.types)
        dst = None
        if p.kind() == "loc" and p.toks[1][1] == "=":
            dst = p.next().replace('"', "")
            p.next()
        op = p.next()
        if op in ("tail", "musttail", "notail"):
            op = p.next()
        if op in BIN or op in FBIN:
            flags = []
            while p.peek() in FLAGS:
                flags.append(p.next())
            t = p.type()
            a = p.value(t)
            p.expect(",")
            b = p.value(t)
            return Ins("bin" if op in BIN else "fbin", dst, t, op, a, b, flags)
        if op == "fneg":
            t = p.type()
            return Ins("fneg", dst, t, p.value(t))
        if op in ("icmp", "fcmp"):
            while p.peek() in FLAGS:
                p.next()
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(",")
            b = p.value(t)
            return Ins(op, dst, t, pred, a, b)
        if op == "select":
            while p.peek() in FLAGS:
                p.next()
            ct, c = p.typed()
            p.expect(",")
            t, a = p.typed()
            p.expect(",")
            _, b = p.typed()
            return Ins("select", dst, t, c, a, b, ct)
        if op in CASTS:
            while p.peek() in FLAGS:
                p.next()
            ft, v = p.typed()
            p.expect("to")
            return Ins("cast", dst, p.type(), op, ft, v)
        if op == "freeze":
            t, v = p.typed()
            return Ins("freeze", dst, t, v)
        if op == "load":
            atomic = False
            while p.peek() in ("atomic", "volatile"):
                atomic = p.next() == "atomic" or atomic
            t = p.type()
            p.expect(",")
            _, a = p.typed()
            return Ins("aload" if atomic else "load", dst, t, a)
        if op == "store":
            atomic = False
            while p.peek() in ("atomic", "volatile"):
                atomic = p.next() == "atomic" or atomic
            t, v = p.typed()
            p.expect(",")
            _, a = p.typed()
            return Ins("astore" if atomic else "store", None, t, v, a)
        if op == "getelementptr":
            while p.peek() in FLAGS or p.peek() == "inrange":
                w = p.next()
                if w == "inrange" and p.peek() == "(":
                    p.skip_parens()
            st = p.type()
            p.expect(",")
            _, base = p.typed()
            idx = []
            while p.accept(","):
                if p.kind() == "word" and p.peek() == "inrange":
                    p.next()
                idx.append(p.typed())
            return Ins("gep", dst, PTR, st, base, idx)
        if op == "alloca":
            t = p.type()
            n = 1
            if p.accept(","):
                if p.peek() != "align":
                    _, n = p.typed()
            return Ins("alloca", dst, t, n)
        if op == "br":
            if p.accept("label"):
                return Ins("jmp", None, VOID, p.next().replace('"', ""))
            _, c = p.typed()
            p.expect(","); p.expect("label")
            a = p.next().replace('"', "")
            p.expect(","); p.expect("label")
            b = p.next().replace('"', "")
            return Ins("br", None, VOID, c, a, b)
        if op == "switch":
            t, v = p.typed()
            p.expect(","); p.expect("label")
            d = p.next().replace('"', "")
            p.expect("[")
            cases = []
            while not p.accept("]"):
                ct, cv = p.typed()
                p.expect(","); p.expect("label")
                cases.append((cv, p.next().replace('"', "")))
            return Ins("switch", None, t, v, d, cases)
        if op == "ret":
            if p.peek() == "void":
                return Ins("ret", None, VOID, None)
            t, v = p.typed()
            return Ins("ret", None, t, v)
        if op == "unreachable":
            return Ins("unreachable", None, VOID)
        if op == "resume":
            t, v = p.typed()
            return Ins("resume", None, t, v)
        if op == "phi":
            while p.peek() in FLAGS:
                p.next()
            t = p.type()
            inc = {}
            while True:
                p.expect("[")
                v = p.value(t)
                p.expect(",")
                inc[p.next().replace('"', "")] = v
                p.expect("]")
                if not p.accept(","):
                    break
            return Ins("phi", dst, t, inc)
        if op in ("call", "invoke"):
            while p.peek() in FLAGS:
                p.next()
            if p.peek() in CC:
                if p.next() == "cc":
                    p.next()
            p.attrs()
            if p.peek() == "addrspace":
                p.next(); p.skip_parens()
            t = p.type()
            if t.kind == "fn":
                t = t.elems
            if p.peek() == "asm":
                return Ins("asm", dst, t, s)
            callee = p.value(PTR)
            p.expect("(")
            args = []
            if not p.accept(")"):
                while True:
                    at = p.type()
                    if at.kind == "metadata":
                        while p.peek() not in (",", ")"):
                            p.next()
                        args.append((at, None, None))
                    else:
                        bv = p.attrs()
                        args.append((at, p.value(at), bv))
                    if not p.accept(","):
                        break
                p.expect(")")
            nl = ul = None
            if op == "invoke":
                while p.peek() != "to":
                    p.next()
                p.next(); p.expect("label")
                nl = p.next().replace('"', "")
                p.expect("unwind"); p.expect("label")
                ul = p.next().replace('"', "")
            return Ins("call", dst, t, callee, args, nl, ul)
        if op == "landingpad":
            t = p.type()
            cleanup, catches = False, []
            while p.peek() in ("cleanup", "catch", "filter"):
                w = p.next()
                if w == "cleanup":
                    cleanup = True
                else:
                    ct, cv = p.typed()
                    catches.append((w, cv))
            return Ins("landingpad", dst, t, cleanup, catches)
        if op == "extractvalue":
            t, v = p.typed()
            idx = []
            while p.accept(","):
                idx.append(int(p.next()))
            return Ins("extractvalue", dst, t, v, idx)
        if op == "insertvalue":
            t, v = p.typed()
            p.expect(",")
            et, e = p.typed()
            idx = []
            while p.accept(","):
                idx.append(int(p.next()))
            return Ins("insertvalue", dst, t, v, e, idx)
        if op == "extractelement":
            t, v = p.typed()
            p.expect(",")
            it, ix = p.typed()
            return Ins("extractelement", dst, t, v, ix)
        if op == "insertelement":
            t, v = p.typed()
            p.expect(",")
            et, e = p.typed()
            p.expect(",")
            it, ix = p.typed()
            return Ins("insertelement", dst, t, v, e, ix)
        if op == "shufflevector":
            t, a = p.typed()
            p.expect(",")
            _, b = p.typed()
            p.expect(",")
            mt, m = p.typed()
            return Ins("shufflevector", dst, t, a, b, m)
        if op == "atomicrmw":
            p.accept("volatile")
            kind = p.next()
            _, a = p.typed()
            p.expect(",")
            t, v = p.typed()
            return Ins("atomicrmw", dst, t, kind, a, v)
        if op == "cmpxchg":
            p.accept("weak")
            p.accept("volatile")
            _, a = p.typed()
            p.expect(",")
            t, e = p.typed()
            p.expect(",")
            _, v = p.typed()
            return Ins("cmpxchg", dst, t, a, e, v)
        if op == "fence":
            return Ins("nop", None, VOID)
        return Ins("unsupported", dst, VOID, s)


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}       # name -> (type, init text or None, constant)
        self.functions = {}
        self.declares = set()
        self.aliases = {}
        self.fallback = None    # module with library functions
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            ln = lines[i]
            i += 1
            if not ln or ln[0] in ";!}":
                continue
            if ln[0] == "%":
                m = re.match(r'^(%"[^"]*"|%[-\w.$]+) = type (.*)$', ln)
                self.types[m.group(1).replace('"', "")] = self._lazy_type(m.group(2))
            elif ln[0] == "@":
                m = re.match(r'^(@"[^"]*"|@[-\w.$]+) = (.*)$', ln)
                name, rest = m.group(1).replace('"', ""), m.group(2)
                if re.search(r"\balias\b", rest.split("@")[0]):
                    self.aliases[name] = re.findall(r'@"[^"]*"|@[-\w.$]+', rest)[-1].replace('"', "")
                else:
                    self.globals[name] = rest
            elif ln.startswith("declare"):
                self.declares.add(re.search(r'@"[^"]*"|@[-\w.$]+', ln).group().replace('"', ""))
            elif ln.startswith("define"):
                name = re.search(r'@"[^"]*"|@[-\w.$]+', ln).group().replace('"', "")
                body = []
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                self.functions[name] = Function(self, name, ln, body)

    def _lazy_type(self, text):
        cache = []

        def get():
            if not cache:
                if text.strip() == "opaque":
                    cache.append(T("st", 0, []))
                else:
                    cache.append(Parser(text, self.types).type())
            return cache[0]
        return get

    def global_init(self, name):
        """(type, init value or None, is constant)"""
        rest = self.globals[name]
        m = re.search(r"\b(global|constant)\b", rest)
        head = rest[:m.start()]
        const = m.group(1) == "constant"
        body = rest[m.end():]
        p = Parser(body, self.types)
        t = p.type()
        init = None
        if p.i < len(p.toks) and p.peek() not in (",",) and "external" not in head.split() \
                and "extern_weak" not in head.split():
            init = p.value(t)
        return t, init, const
