"""C02: C++ field encoding."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from cpplib import *

PADDING = 8


def writes(unit, s, fields):
    """every field of the group: the buffer holds arbitrary data, one value is written"""
    def scenario(env):
        c = unit.session(env)
        for f in fields:
            mem = env.bytes("mem", s.size + PADDING)
            if f.typ == "bool":
                v = env.int_in("value_" + f.name, 0, 1)
            elif f.signed:
                v = env.int_in("value_" + f.name, -(1 << (f.width - 1)), (1 << (f.width - 1)) - 1)
            else:
                v = env.int_in("value_" + f.name, 0, (1 << f.width) - 1)
            p = c.buf(mem)
            c.call("wr_%s_%s" % (s.name, f.name), p, v)
            after = c.read(p, s.size + PADDING)
            env.observe(f.name, after)
            bits = 0
            for i in range(len(mem)):
                lo, hi = max(f.offset, 8 * i), min(f.offset + f.width, 8 * i + 8)
                if lo >= hi:
                    env.prove(after[i] == mem[i], "writing %s : %d at bit %d leaves byte %d alone" % (f.typ, f.width, f.offset, i))
                    continue
                mask = ((1 << (hi - lo)) - 1) << (lo - 8 * i)
                part = ((v >> (lo - f.offset)) & ((1 << (hi - lo)) - 1)) << (lo - 8 * i)
                env.prove(after[i] == (mem[i] & (255 ^ mask)) + part,
                          "writing %s : %d at bit %d: byte %d holds the value and the neighbours" % (f.typ, f.width, f.offset, i))
            back = c.call("wb_%s_%s" % (s.name, f.name), p, signed=f.signed)
            env.prove(back == v, "%s : %d at bit %d reads back through the mutator" % (f.typ, f.width, f.offset))
        c.close()
    return scenario


def source(structs):
    out = []
    for s in structs:
        for f in s.fields:
            t = CTYPE[f.base] if f.typ == f.base else "n::" + f.typ
            conv = "(U)(I)(%s)" % CTYPE[f.base] if f.signed else "(U)(%s)" % CTYPE[f.base]
            out.append("API wr_%s_%s(M p, U v) { n::%sMutator x{p}; x.%s = static_cast<%s>(static_cast<%s>(v)); return 0; }" %
                       (s.name, f.name, s.name, f.name, t, CTYPE[f.base]))
            out.append("API wb_%s_%s(M p) { n::%sMutator x{p}; return %s static_cast<%s>(x.%s); }" % (s.name, f.name, s.name, conv, t, f.name))
    return "\n".join(out)


def build():
    structs, schema = matrix()
    hs, units, groups = [], [], {}
    for s in structs:
        groups.setdefault(s.name[:4] if s.name[1] in "ui" else "rest", []).append(s)
    for g, ss in groups.items():
        enums = schema[:schema.index("struct")]
        u = cpp_unit("C02", g, enums + " ".join(s.schema() for s in ss) + " }", source(ss))
        units.append(u)
        for s in ss:
            for i in range(0, len(s.fields), 8):
                fs = s.fields[i:i + 8]
                hs.append(PyHarness("%s/%s" % (s.name, fs[0].name), writes(u, s, fs), [],
                                    "all types, widths 1..width of the type, all bit offsets 0..7, enumerations; previous memory "
                                    "content and value symbolic", validate=1, weight=s.size))
    build_units(units)
    return hs


if __name__ == "__main__":
    main("C02", build,
         ["values are representable in their field (the generator checks constants; callers check variables)",
          "data carries at least 8 bytes of padding behind the structure (the format guarantees it)",
          "clang 18 -O1 IR of the headers and of the generated code is the code under test; sanitizer builds replay"],
         ["values not representable in their field", "big-endian hosts", "concurrent writers of neighbouring fields"])
