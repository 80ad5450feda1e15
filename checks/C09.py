"""C09: C++ optional values: absent exactly if the field holds the sentinel."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from cpplib import *
from pylib import mk_bytes

PADDING = 8
#  base type, width, sentinel
FIELDS = [("u8", 5, 31), ("i8", 5, -3), ("u16", 9, 0), ("i16", 16, -32768), ("u32", 32, 0xFFFFFFFF), ("i32", 17, 65535), ("u64", 64, (1 << 64) - 1),
          ("i64", 64, -(1 << 63)), ("i64", 41, -1), ("u64", 63, 5), ("u8", 1, 1), ("u8", 8, 255), ("u32", 30, 7), ("i8", 8, 127), ("u16", 16, 300),
          ("i64", 61, -2), ("u64", 58, (1 << 58) - 1)]


def structures():
    out, consts = [], []
    for i, (_, _, v) in enumerate(FIELDS):
        consts.append("const %s N%d = %d;" % (FIELDS[i][0], i, v))
    for k in range(8):
        fs, text, off = [], [], 0
        if k:
            text.append("pad : u8 : %d;" % k)
            off = k
        for i in range(len(FIELDS)):
            b, w, v = FIELDS[(i + k) % len(FIELDS)]
            fs.append((FieldDef("f%d" % i, b, b, w, off), v))
            text.append("@optional( N%d ) f%d : %s : %d;" % ((i + k) % len(FIELDS), i, b, w))
            off += w
        out.append(("S%d" % k, fs, (off + 7) // 8, "struct S%d { %s }" % (k, " ".join(text))))
    return out, "namespace n { %s %s archive Arc { } }" % (" ".join(consts), " ".join(s[3] for s in out))


def source(structs):
    out = ["template<class T> U opt(const boost::optional<T>& o, U* out) { if (o) *out = (U)(I)*o; return (bool)o; }"]
    for n, fs, size, _ in structs:
        for f, _ in fs:
            d = dict(n=n, f=f.name, t=CTYPE[f.base], wide="int64_t" if f.signed else "uint64_t")
            out.append('''
API has_%(n)s_%(f)s(P p) { n::%(n)s x{p}; return (bool)x.%(f)s; }
API raw_%(n)s_%(f)s(P p) { n::%(n)s x{p}; return (U)(I)*x.%(f)s; }
API get_%(n)s_%(f)s(P p, U* out) { n::%(n)s x{p}; boost::optional<%(t)s> o = x.%(f)s; return opt(o, out); }
API wide_%(n)s_%(f)s(P p, U* out) { n::%(n)s x{p}; boost::optional<%(wide)s> o = x.%(f)s; return opt(o, out); }
API mhas_%(n)s_%(f)s(M p) { n::%(n)sMutator x{p}; return (bool)x.%(f)s; }
API mraw_%(n)s_%(f)s(M p) { n::%(n)sMutator x{p}; return (U)(I)*x.%(f)s; }
API mget_%(n)s_%(f)s(M p, U* out) { n::%(n)sMutator x{p}; boost::optional<%(t)s> o = x.%(f)s; return opt(o, out); }
API set_%(n)s_%(f)s(M p, U v) { n::%(n)sMutator x{p}; x.%(f)s = (%(t)s)v; return 0; }
API none_%(n)s_%(f)s(M p) { n::%(n)sMutator x{p}; boost::optional<%(t)s> o; auto& r = (x.%(f)s = o); return &r == &x.%(f)s; }
API some_%(n)s_%(f)s(M p, U v) { n::%(n)sMutator x{p}; boost::optional<%(t)s> o((%(t)s)v); auto& r = (x.%(f)s = o); return &r == &x.%(f)s; }
''' % d)
    return "\n".join(out)


def u64(c, p):
    b, v = c.read(p, 8), 0
    for k in range(8):
        v = v + (b[k] << (8 * k))
    return v


def bits64(v):
    return v & ((1 << 64) - 1)


def reads(unit, n, fs, size):
    def scenario(env):
        c = unit.session(env)
        mem = env.bytes("mem", size + PADDING)
        p, out = c.buf(mem), c.buf(8)
        for f, none in fs:
            want = spec_read(mem, f.offset, f.width, f.signed)
            there = want != none
            what = "%s : %d at bit %d with sentinel %d" % (f.base, f.width, f.offset, none)
            for fn in ("has", "mhas"):
                got = c.call("%s_%s_%s" % (fn, n, f.name), p)
                env.prove((got == 1) == there, what + ": there exactly if not the sentinel")
            env.observe(f.name, got)
            for fn in ("raw", "mraw"):
                env.prove(c.call("%s_%s_%s" % (fn, n, f.name), p) == bits64(want), what + ": value")
            for fn in ("get", "wide", "mget"):
                got = c.call("%s_%s_%s" % (fn, n, f.name), p, out)
                env.prove((got == 1) == there, what + ": optional is set exactly if not the sentinel")
                env.prove((got == 0) | (u64(c, out) == bits64(want)), what + ": optional value")
        c.close()
    return scenario


def writes(unit, n, fs, size):
    def scenario(env):
        c = unit.session(env)
        for f, none in fs:
            what = "%s : %d at bit %d with sentinel %d" % (f.base, f.width, f.offset, none)
            mem = env.bytes("mem_" + f.name, size + PADDING)
            v = env.int_in("v_" + f.name, -(1 << (f.width - 1)) if f.signed else 0, (1 << (f.width - f.signed)) - 1)
            for fn, value in (("set", v), ("some", v), ("none", none)):
                p, out = c.buf(mem), c.buf(8)
                args = () if fn == "none" else (v,)
                ret = c.call("%s_%s_%s" % (fn, n, f.name), p, *args)
                env.prove((fn == "set") | (ret == 1), what + ": assignment returns the field")
                after = c.read(p, size + PADDING)
                env.observe(fn + f.name, after)
                ok = []
                for i in range(len(mem)):
                    lo, hi = max(f.offset, 8 * i), min(f.offset + f.width, 8 * i + 8)
                    if lo >= hi:
                        ok.append(after[i] == mem[i])
                        continue
                    mask = ((1 << (hi - lo)) - 1) << (lo - 8 * i)
                    part = ((value >> (lo - f.offset)) & ((1 << (hi - lo)) - 1)) << (lo - 8 * i)
                    ok.append(after[i] == (mem[i] & (255 ^ mask)) + part)
                env.prove(env.all(*ok), what + ": %s stores the value and nothing else" % fn)
                got = c.call("get_%s_%s" % (n, f.name), p, out)
                env.prove((got == 1) == (value != none), what + ": reads back as none exactly if none was written")
                env.prove((got == 0) | (u64(c, out) == bits64(value)), what + ": reads back")
        c.close()
    return scenario


def build():
    structs, schema = structures()
    u = cpp_unit("C09", "optional", schema, source(structs), flags=["-Wno-c++11-narrowing"])     # for the literal -2^63
    try:
        build_units([u])
    except BuildError as e:
        message = str(e)[-1500:]

        def refused(env):
            env.observe("compiler", 0)
            env.prove(env.boolean("any") & False, "optional fields can be read and assigned: " + message)
        return [PyHarness("compile", refused, [], "the generated code as it is used", validate=0)]
    hs = []
    B = "17 optional fields (all base types, widths 1..64, sentinels at both ends and inside) at all bit offsets; memory and values symbolic"
    for n, fs, size, _ in structs:
        for i in range(0, len(fs), 2):
            hs.append(PyHarness("read/%s/%d" % (n, i), reads(u, n, fs[i:i + 2], size), [], B, validate=2))
            hs.append(PyHarness("write/%s/%d" % (n, i), writes(u, n, fs[i:i + 2], size), [], B, validate=1))
    return hs


if __name__ == "__main__":
    main("C09", build,
         ["data carries at least 8 bytes of padding behind the structure (the format guarantees it)",
          "clang 18 -O1 IR of the headers and of the generated code is the code under test; sanitizer builds replay"],
         ["values not representable in their field", "that clang refuses the constant -2^63 as generated (gcc accepts it; the literal is expected by the generator's tests)", "optional ranges (refused by the generator)"])
