"""R02: Rust field encoding."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from rustlib import *


def writes(unit, s, fields):
    """every field of the group: the buffer holds arbitrary data, one value is written"""
    def scenario(env):
        c = unit.session(env)
        for f in fields:
            mem = env.bytes("mem", s.size)
            if f.typ == "bool":
                v = env.int_in("value_" + f.name, 0, 1)
            elif f.signed:
                v = env.int_in("value_" + f.name, -(1 << (f.width - 1)), (1 << (f.width - 1)) - 1)
            else:
                v = env.int_in("value_" + f.name, 0, (1 << f.width) - 1)
            p = c.buf(mem)
            c.call("wr_%s_%s" % (s.name, f.name), p, v)
            after = c.read(p, s.size)
            env.observe(f.name, after)
            bits = 0
            for i in range(len(mem)):
                lo, hi = max(f.offset, 8 * i), min(f.offset + f.width, 8 * i + 8)
                if lo >= hi:
                    env.prove(after[i] == mem[i], "writing %s : %d at bit %d leaves byte %d alone" % (f.typ, f.width, f.offset, i))
                    continue
                mask = ((1 << (hi - lo)) - 1) << (lo - 8 * i)
                part = ((v >> (lo - f.offset)) & ((1 << (hi - lo)) - 1)) << (lo - 8 * i)
                env.prove(after[i] == (mem[i] & (255 ^ mask)) + part,
                          "writing %s : %d at bit %d: byte %d holds the value and the neighbours" % (f.typ, f.width, f.offset, i))
            if f.signed and f.width == 1 and f.typ != f.base and unit.mode == "debug":
                continue                       # aborts (a known finding of R01)
            back = c.call("wb_%s_%s" % (s.name, f.name), p, signed=f.signed)
            if f.signed and f.width == 1:     # known finding of R01
                continue
            env.prove(back == v, "%s : %d at bit %d reads back " % (f.typ, f.width, f.offset))
        c.close()
    return scenario


def source(structs):
    out = []
    for s in structs:
        for f in s.fields:
            v = "v != 0" if f.base == "bool" else "v as " + f.base
            if f.typ != f.base:
                v = "std::mem::transmute::<%s, n::%s>(v as %s)" % (f.base, f.typ, f.base)
            out.append("api!(wr_%s_%s(p: *mut u8, v: u64) { (*(p as *mut n::%s)).set_%s(%s); 0 });" % (s.name, f.name, s.name, f.name, v))
            out.append("api!(wb_%s_%s(p: *const u8) { (*(p as *const n::%s)).%s() as %s });" %
                       (s.name, f.name, s.name, f.name, "i64 as u64" if f.signed else "u64"))
    return "\n".join(out)


def build():
    structs, schema = matrix()
    hs, units, groups = [], [], {}
    for s in structs:
        groups.setdefault(s.name[:4] if s.name[1] in "ui" else "rest", []).append(s)
    for g, ss in groups.items():
        u = RustUnit("R02", g, schema[:schema.index("struct")] + " ".join(s.schema() for s in ss) + " }", source(ss))
        units.append(u)
        for s in ss:
            for i in range(0, len(s.fields), 8):
                fs = s.fields[i:i + 8]
                hs.append(PyHarness("%s/%s" % (s.name, fs[0].name), writes(u, s, fs), [],
                                    "all types, widths 1..width of the type, all bit offsets 0..7, enumerations; previous memory "
                                    "content and value symbolic", validate=1, weight=s.size))
    build_rust(units)
    return hs


if __name__ == "__main__":
    main("R02", both(build),
         ["values are representable in their field (the generator checks constants; callers check variables)",
          "LLVM IR (rustc, opt-level 1, LTO with std; with and without overflow checks and debug assertions) of the crate and of the generated code is the code under test; replays in an address sanitizer build"],
         ["values not representable in their field", "big-endian hosts", "concurrent writers of neighbouring fields"])
