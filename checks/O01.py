"""O01: Go field decoding."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from golib import *


def direct(unit, widths):
    """flatdata.Read at every bit offset"""
    def scenario(env):
        for w in widths:
            for off in list(range(8)) + [8 * 3 + 5]:
                for signed in (0, 1):
                    n = (off + w + 7) // 8
                    mem = env.bytes("m_%d_%d" % (w, off), n + 8)
                    got = unit.call(env, "ReadBits", [mem], [off, w, signed])[0]
                    env.observe("%d/%d/%d" % (w, off, signed), got)
                    want = spec_read(mem, off, w, signed) & (2 ** 64 - 1)
                    env.prove(got == want, "Read of %d bits at bit %d, signed %d" % (w, off, signed))
    return scenario


def getters(unit, s, fields, items):
    def scenario(env):
        mem = env.bytes("mem", s.size * items)
        at = env.int_in("item", 0, items - 1)
        res = framed(list(mem))
        i = at.__index__()
        if s.name == "Sbool":       # one at a time: a boolean result is a branch
            got = [unit.call(env, "Get_Sbool", [res, unit.text[s.name]], [at, k])[0] if f in fields else None for k, f in enumerate(s.fields)]
        else:
            got = unit.call(env, "Get_" + s.name, [res, unit.text[s.name]], [at])
        b = list(mem)[i * s.size:(i + 1) * s.size]
        for k, f in enumerate(s.fields):
            if f in fields:
                env.observe(f.name, got[k])
                want = spec_read(b, f.offset, f.width, f.signed) & (2 ** 64 - 1)
                env.prove(got[k] == want, "%s %s : %d at bit %d decodes its bits" % (f.name, f.typ, f.width, f.offset))
    return scenario


def build():
    structs, schema = matrix(enums=())
    structs = [s for s in structs if not s.name.startswith("Senum")]
    body = ["func ReadBits(b [][]byte, a []int64) []int64 { return []int64{int64(flatdata.Read(mem(b[0]), uint(a[0]), uint(a[1]), a[2] != 0))} }",
            "func num(x bool) int64 { if x { return 1 }; return 0 }"]
    schema = "namespace n { %s %s }" % (" ".join(s.schema() for s in structs),
                                        " ".join("archive A%s { r : vector< %s >; }" % (s.name, s.name) for s in structs))
    for s in structs:
        name = "A" + s.name
        rets = [("num(s.Get%s())" if f.base == "bool" else "int64(s.Get%s())") % (f.name[0].upper() + f.name[1:]) for f in s.fields]
        if s.name == "Sbool":
            last = "\tswitch a[1] {\n%s\t}\n\treturn nil\n}" % "".join("\tcase %d: return []int64{%s}\n" % (k, r) for k, r in enumerate(rets))
        else:
            last = "\treturn []int64{%s}\n}" % ", ".join(rets)
        body.append("func Get_%s(b [][]byte, a []int64) []int64 {\n\tst := &flatdata.InMemoryResourceStorage{Descriptors: map[string]flatdata.MemoryDescriptor{\"r\": mem(b[0])}, "
                    "Schemas: map[string]string{\"r\": string(b[1])}}\n\tv, err := gen.Open%sArchive(st)\n\tif err != nil { panic(err) }\n"
                    "\ts := v.RVector.Get(int(a[0]))\n%s" % (s.name, name, last))
    unit = GoUnit("O01", {"gen": schema}, "\n".join(body)).build()
    tree = Engine(schema).tree
    unit.text = {s.name: tree.schema(tree.find(".n.A%s.r" % s.name)).encode() for s in structs}
    hs = []
    for w in range(1, 65):
        hs.append(PyHarness("read/%d" % w, direct(unit, [w]), [], "Read: widths 1..64, bit offsets 0..7 and 29, both signs; memory content symbolic",
                            validate=2, weight=4))
    for s, fs in [(s, s.fields) for s in structs if s.name != "Sbool"] + [(s, [f]) for s in structs if s.name == "Sbool" for f in s.fields]:
        hs.append(PyHarness("get/%s/%s" % (s.name, fs[0].name), getters(unit, s, fs, tier(2, 4)), [],
                            "generated getters: all integer types and bool, widths 1..width of the type, all bit offsets 0..7; items of a vector, "
                            "content symbolic", validate=2, weight=len(fs)))
    return hs


main("O01", build, GO_ASSUME, "enumerations (the Go generator does not support them); fields behind item 4 of a vector")
