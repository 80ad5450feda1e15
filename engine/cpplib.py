"""C++ harness generation on top of code generated from schemas by the real generator."""
from native import *
from flatdata.generator.engine import Engine

BITS = {"bool": 1, "u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64}
CTYPE = {"bool": "bool", "u8": "uint8_t", "i8": "int8_t", "u16": "uint16_t", "i16": "int16_t", "u32": "uint32_t",
         "i32": "int32_t", "u64": "uint64_t", "i64": "int64_t"}


def cpp_header(schema):
    return Engine(schema).render("cpp")


PRELUDE = '''
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
template class std::basic_string<char>;
#include "schema.hpp"
typedef uint64_t U; typedef int64_t I; typedef const unsigned char* P; typedef unsigned char* M;
#define API extern "C" U
'''


def cpp_unit(prop, name, schema, body, sources=(), **kw):
    """schema: text compiled by the real generator into schema.hpp; sources: files of flatdata-cpp/src"""
    inc = "".join('#include "%s"\n' % os.path.join(REPO, "flatdata-cpp", "src", s) for s in sources)
    return Unit(prop, name, {"schema.hpp": cpp_header(schema), "unit.cpp": PRELUDE + body + "\n" + inc}, "unit.cpp", **kw)


class FieldDef:
    def __init__(self, name, typ, base, width, offset):
        self.name, self.typ, self.base, self.width, self.offset = name, typ, base, width, offset
        self.signed = base[0] == "i"


class StructDef:
    """A structure of the matrix of structures covering every (type, width, bit offset)."""

    def __init__(self, name, fields):
        self.name, self.fields = name, []
        off = 0
        for n, typ, base, w in fields:
            self.fields.append(FieldDef(n, typ, base, w, off))
            off += w
        self.bits, self.size = off, (off + 7) // 8

    def schema(self):
        return "struct %s { %s }" % (self.name, " ".join("%s : %s : %d;" % (f.name, f.typ, f.width) for f in self.fields))


def enum_schema(base, width, values):
    name = "E%s%d" % (base, width)
    return "enum %s : %s : %d { %s }" % (name, base, width, ", ".join("V%d = %d" % (i, v) for i, v in enumerate(values)))


def matrix(pads=range(8), enums=((("u8", 3), (0, 5)), (("i8", 1), (0, -1)), (("i8", 5), (-16, -1, 15)), (("i16", 7), (-64, -3, 63)),
                                 (("u16", 8), (7, 255)), (("i32", 4), (-8, 7)), (("u64", 6), (1, 63)))):
    """structs: for every base type and pad, fields of all widths one after the other"""
    out, text = [], []
    for (b, w), vals in enums:
        text.append(enum_schema(b, w, vals))
    for base in ("u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8"):
        for pad in pads:
            fs = [("pad", "u8", "u8", pad)] if pad else []
            fs += [("f%d" % w, base, base, w) for w in range(1, BITS[base] + 1)]
            out.append(StructDef("S%s%d" % (base, pad), fs))
    fs = []
    for i in range(8):
        fs += [("b%d" % i, "bool", "bool", 1)]
    fs += [("p", "u8", "u8", 5), ("tail", "bool", "bool", 1), ("v", "i16", "i16", 11), ("last", "bool", "bool", 1)]
    out.append(StructDef("Sbool", fs))
    for pad in pads:
        fs = [("pad", "u8", "u8", pad)] if pad else []
        for k, ((b, w), _) in enumerate(enums):
            fs.append(("e%d" % k, "E%s%d" % (b, w), b, w))
            fs.append(("g%d" % k, "u8", "u8", 1 + (k + pad) % 7))
        out.append(StructDef("Senum%d" % pad, fs))
    return out, "namespace n { %s %s }" % (" ".join(text), " ".join(s.schema() for s in out))


def field_value(env, f):
    """a symbolic value representable in the field"""
    if f.signed:
        return env.int_in("value", -(1 << (f.width - 1)), (1 << (f.width - 1)) - 1)
    return env.int_in("value", 0, (1 << f.width) - 1)


def spec_read(b, bit, width, signed):
    """LSB-first little-endian bit string; two's complement when signed."""
    lo, hi = bit // 8, (bit + width + 7) // 8
    total = 0
    for i in range(lo, hi):
        total = total + (b[i] << (8 * (i - lo)))
    v = (total >> (bit - 8 * lo)) & ((1 << width) - 1)
    if signed:
        v = v - ((v >> (width - 1)) << width)
    return v


def to_c(v):
    return v
