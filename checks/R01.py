"""R01: Rust field decoding."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from rustlib import *


def reads(unit, s, fields, one_bit=False):
    def scenario(env):
        c = unit.session(env)
        mem = env.bytes("mem", s.size)
        p = c.buf(mem)
        for f in fields:
            if f.signed and f.width == 1 and f.typ != f.base and unit.mode == "debug" and not one_bit:
                continue                       # aborts (a known finding)
            got = c.call("rd_%s_%s" % (s.name, f.name), p, signed=f.signed)
            env.observe(f.name, got)
            want = spec_read(mem, f.offset, f.width, f.signed)
            if f.signed and f.width == 1 and not one_bit:
                if f.typ == f.base:        # the enumeration's accessor has undefined behaviour
                    env.prove((got == want) | (got == -want), "%s %s : 1 at bit %d depends on its bit" % (f.name, f.typ, f.offset))
                continue
            env.prove(got == want, "%s %s : %d at bit %d decodes its bits" % (f.name, f.typ, f.width, f.offset))
        env.prove(c.call("size_%s" % s.name) == s.size, "size of %s" % s.name)
        c.close()
    return scenario


def source(structs):
    out = []
    for s in structs:
        for f in s.fields:
            out.append("api!(rd_%s_%s(p: *const u8) { (*(p as *const n::%s)).%s() as %s });" %
                       (s.name, f.name, s.name, f.name, "i64 as u64" if f.signed else "u64"))
        out.append("api!(size_%s() { assert!(std::mem::size_of::<n::%s>() == <n::%s as Struct>::SIZE_IN_BYTES); <n::%s as Struct>::SIZE_IN_BYTES as u64 });" %
                   ((s.name,) * 4))
    return "\n".join(out)


def groups_of(structs):
    groups = {}
    for s in structs:
        groups.setdefault(s.name[:4] if s.name[1] in "ui" else "rest", []).append(s)
    return groups


def build():
    structs, schema = matrix()
    hs = []
    units = []
    for g, ss in groups_of(structs).items():
        u = RustUnit("R01", g, schema[:schema.index("struct")] + " ".join(s.schema() for s in ss) + " }", source(ss))
        units.append(u)
        for s in ss:
            k = 8 if g in ("Su64", "Si64") else 16
            for i in range(0, len(s.fields), k):
                fs = s.fields[i:i + k]
                hs.append(PyHarness("%s/%s" % (s.name, fs[0].name), reads(u, s, fs), [],
                                    "all types, widths 1..width of the type, all bit offsets 0..7, enumerations; memory content "
                                    "symbolic, nothing behind the structure", validate=2, weight=len(fs)))
            one = [f for f in s.fields if f.signed and f.width == 1]
            if one and s.name[-1] == "0":
                hs.append(PyHarness("one_bit/" + s.name, reads(u, s, one, True), [], "signed fields of one bit", known="R01/signed-one-bit"))
    build_rust(units)
    return hs


if __name__ == "__main__":
    main("R01", both(build),
         ["LLVM IR (rustc, opt-level 1, LTO with std; with and without overflow checks and debug assertions) of the crate and of the generated code is the code under test; replays in an address sanitizer build"],
         ["big-endian hosts"])
