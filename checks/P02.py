"""P02: Python field encoding."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from flatdata.lib import data_access


def bits_of(b):
    total = 0
    for i, x in enumerate(b):
        total = total + (x << (8 * i))
    return total


def value_range(width, signed):
    return (-(1 << (width - 1)), (1 << (width - 1)) - 1) if signed else (0, (1 << width) - 1)


def writer(width, bit, base, signed):
    """Overwriting a field of an arbitrary buffer changes exactly its bits."""
    nbytes = base + (bit + width + 7) // 8 + 2
    off = base * 8 + bit
    def scenario(env):
        mem = env.bytes("mem", nbytes, "bytearray")
        before = bits_of(mem)
        v = env.int_in("value", *value_range(width, signed))
        data_access.write_value(mem, off, width, signed, v)
        env.prove(len(mem) == nbytes, "buffer length is kept")
        env.observe("mem", bytes_(mem))
        mask = ((1 << width) - 1) << off
        want = (before & ~mask) | ((v << off) & mask)
        env.prove(bits_of(mem) == want,
                  "writing a %d-bit %s field at bit %d stores its value and keeps all other bits"
                  % (width, "signed" if signed else "unsigned", off))
        env.prove(data_access.read_value(mem, off, width, signed) == v,
                  "the value read back is the value written (width %d, bit %d)" % (width, off))
    return scenario


def bytes_(m):
    return [x for x in m]


def two_fields(w1, w2, start, signed, order):
    """Two adjacent fields written in either order, the first one also rewritten."""
    nbytes = (start + w1 + w2 + 7) // 8 + 1
    def scenario(env):
        mem = env.bytes("mem", nbytes, "bytearray")
        before = bits_of(mem)
        a = env.int_in("a", *value_range(w1, signed))
        b = env.int_in("b", *value_range(w2, signed))
        a2 = env.int_in("a2", *value_range(w1, signed))
        fa, fb = (start, w1), (start + w1, w2)
        ops = [(fa, a), (fb, b), (fa, a2)] if order == 0 else [(fb, b), (fa, a), (fa, a2)]
        for (o, w), v in ops:
            data_access.write_value(mem, o, w, signed, v)
        env.prove(env.all(data_access.read_value(mem, fa[0], w1, signed) == a2,
                          data_access.read_value(mem, fb[0], w2, signed) == b),
                  "adjacent %d- and %d-bit fields are independent" % (w1, w2))
        mask = ((1 << (w1 + w2)) - 1) << start
        env.prove((bits_of(mem) & ~mask) == (before & ~mask), "bits outside the fields are kept")
    return scenario


def build():
    hs = []
    F = ["flatdata.lib.data_access.write_value", "flatdata.lib.data_access.read_value"]
    B = "all widths 1..64, every bit offset 0..7, byte offsets {0..3}; buffer and value fully symbolic"
    for w in range(1, 65):
        for bit in range(8):
            for signed in (False, True):
                for base in tier((0, 2) if bit in (0, 3, 7) else (1,), (0, 1, 2, 5)):
                    hs.append(PyHarness("write/w%d/b%d/%s/base%d" % (w, bit, "s" if signed else "u", base),
                                        writer(w, bit, base, signed), F, B, validate=1))
    ws = tier((1, 3, 8, 13, 33, 64), (1, 2, 3, 7, 8, 9, 13, 16, 31, 33, 57, 63, 64))
    for w1 in ws:
        for w2 in ws:
            for start in tier((0, 5, 15), (0, 1, 5, 7, 15)):
                for order in (0, 1):
                    hs.append(PyHarness("pair/%d/%d/%d/%d" % (w1, w2, start, order),
                                        two_fields(w1, w2, start, bool((w1 + w2) & 1) , order), F, B,
                                        validate=1))
    return hs


if __name__ == "__main__":
    main("P02", build, ["the value fits the field (callers pass values in the field's range)"],
         ["values outside the range of the field", "fields of width 0 or > 64"])
