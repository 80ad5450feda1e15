"""P01: Python field decoding."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from flatdata.lib import data_access
from flatdata.lib.structure import Structure, FieldSignature


def spec_read(b, bit, width, signed):
    """LSB-first little-endian bit string; two's complement when signed."""
    total = 0
    for i, x in enumerate(b):
        total = total + (x << (8 * i))
    v = (total >> bit) & ((1 << width) - 1)
    if signed:
        v = v - ((v >> (width - 1)) << width)
    return v


def reader(width, bit, base, signed, tail, kind):
    nbytes = (bit + width + 7) // 8
    def scenario(env):
        pre, mem = base, env.bytes("mem", base + nbytes + tail, kind)
        got = data_access.read_value(mem, base * 8 + bit, width, signed)
        env.observe("value", got)
        env.prove(got == spec_read(mem[base:base + nbytes], bit, width, signed),
                  "read of a %d-bit %s field at bit %d" % (width, "signed" if signed else "unsigned", base * 8 + bit))
    return scenario


def struct_reader(width, bit, pos, signed):
    """Through the attribute protocol of a structure placed at byte `pos`."""
    nbytes = (bit + width + 7) // 8
    def scenario(env):
        cls = type("S", (Structure,), dict(_FIELDS={"f": FieldSignature(bit, width, signed, "u8")},
                                           _FIELD_KEYS={"f"}, _NAME="S", _SCHEMA="", _SIZE_IN_BYTES=nbytes))
        mem = env.bytes("mem", pos + nbytes + 8)
        s = cls(mem, pos)
        want = spec_read(mem[pos:pos + nbytes], bit, width, signed)
        env.prove(env.all(s.f == want, s.as_tuple()[0] == want, s.as_list()[0] == want,
                          s.as_dict()["f"] == want, list(s)[0] == want),
                  "structure accessors at byte %d, bit %d, width %d" % (pos, bit, width))
    return scenario


def build():
    hs = []
    F = ["flatdata.lib.data_access.read_value"]
    B = "all widths 1..64, every bit offset 0..7, byte offsets {0,3}; memory content fully symbolic"
    for w in range(1, 65):
        for bit in range(8):
            for signed in (False, True):
                if w == 1 and signed:
                    continue
                for base in tier((0, 3) if bit in (0, 1, 7) else (3,), (0, 1, 3, 9)):
                    hs.append(PyHarness("read/w%d/b%d/%s/base%d" % (w, bit, "s" if signed else "u", base),
                                        reader(w, bit, base, signed, 8, "bytes"), F, B, validate=1))
    for bit in range(8):
        hs.append(PyHarness("read1signed/b%d" % bit, reader(1, bit, 2, True, 8, "bytes"), F, B,
                            validate=1))
    for w in tier((1, 2, 7, 8, 9, 31, 33, 57, 58, 63, 64), range(1, 65)):
        for bit in (0, 1, 5, 7, 12, 23):
            for signed in (False, True):
                if w == 1 and signed:
                    continue
                hs.append(PyHarness("struct/w%d/b%d/%s" % (w, bit, signed), struct_reader(w, bit, 8 + bit % 5, signed),
                                    F + ["flatdata.lib.structure.Structure.*"], B, validate=1))
    return hs


if __name__ == "__main__":
    main("P01", build,
         ["resources carry at least 8 bytes of padding after the payload (the format guarantees it)"],
         ["fields of width 0 or > 64", "numpy/pandas conversion of the decoded integers"])
