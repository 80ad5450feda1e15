"""C01: C++ field decoding."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from cpplib import *


def reads(unit, s, fields):
    def scenario(env):
        c = unit.session(env)
        mem = env.bytes("mem", s.size + 8)
        p = c.buf(mem)
        for f in fields:
            got = c.call("rd_%s_%s" % (s.name, f.name), p, signed=f.signed)
            env.observe(f.name, got)
            want = spec_read(mem, f.offset, f.width, f.signed)
            env.prove(got == want, "%s %s : %d at bit %d decodes its bits" % (f.name, f.typ, f.width, f.offset))
            if not f.typ.startswith("E"):
                mu = c.call("rm_%s_%s" % (s.name, f.name), p, signed=f.signed)
                env.prove(mu == want, "%s %s : %d at bit %d decodes its bits through a mutator" %
                          (f.name, f.typ, f.width, f.offset))
        env.prove(c.call("size_%s" % s.name) == s.size, "size of %s" % s.name)
        c.close()
    return scenario


def source(structs):
    out = []
    for s in structs:
        for f in s.fields:
            conv = "(U)(I)(%s)" % CTYPE[f.base] if f.signed else "(U)(%s)" % CTYPE[f.base]
            t = CTYPE[f.base] if f.typ == f.base else "n::" + f.typ
            out.append("API rd_%s_%s(P p) { n::%s x{p}; return %s static_cast<%s>(x.%s); }" % (s.name, f.name, s.name, conv, t, f.name))
            if t == CTYPE[f.base]:
                out.append("API rm_%s_%s(M p) { n::%sMutator x{p}; return %s static_cast<%s>(x.%s); }" % (s.name, f.name, s.name, conv, t, f.name))
        out.append("API size_%s() { return n::%s::size_in_bytes(); }" % (s.name, s.name))
    return "\n".join(out)


def build():
    structs, schema = matrix()
    hs = []
    units = []
    groups = {}
    for s in structs:
        groups.setdefault(s.name[:4] if s.name[1] in "ui" else "rest", []).append(s)
    for g, ss in groups.items():
        enums = schema[:schema.index("struct")]
        u = cpp_unit("C01", g, enums + " ".join(s.schema() for s in ss) + " }", source(ss))
        units.append(u)
        for s in ss:
            k = 8 if g in ("Su64", "Si64") else 16
            for i in range(0, len(s.fields), k):
                fs = s.fields[i:i + k]
                hs.append(PyHarness("%s/%s" % (s.name, fs[0].name), reads(u, s, fs), [],
                                    "all types, widths 1..width of the type, all bit offsets 0..7, enumerations; memory content "
                                    "symbolic, 8 bytes after the structure", validate=2, weight=len(fs)))
    build_units(units)
    return hs


if __name__ == "__main__":
    main("C01", build,
         ["data carries at least 8 bytes of padding behind the structure (the format guarantees it)",
          "clang 18 -O1 IR of the headers and of the generated code is the code under test; sanitizer builds replay"],
         ["big-endian hosts", "compilers other than clang"])
