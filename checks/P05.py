"""P05: Python multivector views."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from pylib import *

A = Layout("A", [("a", "i16", 5), ("b", "u32", 32), ("c", "i32", 7)])
B = Layout("B", [("x", "u8", 3)])
C = Layout("C", [("p", "i64", 64)])
Dd = Layout("D", [("s", "bool", 1), ("t", "i16", 12)])
F = ["flatdata.lib.resources.Multivector.*", "flatdata.lib.resources._MultivectorSlice.*",
     "flatdata.lib.resources.Vector.*", "flatdata.lib.data_access.read_value", "flatdata.lib.structure.Structure.*"]


def int_of(v):
    return v.__index__()


def setup(env, width, lays, total, nb, fixed=None):
    """Arbitrary data bytes and arbitrary ascending index entries: whatever the tags say is the
    content, as long as the tags are valid and elements end with their bucket."""
    schema = "namespace n { %s archive Arc { r : multivector< %d, %s >; } }" % (
        " ".join(l.text for l in lays), width, ", ".join(l.name for l in lays))
    mod = module(schema)
    data = env.bytes("d", total)
    cells = list(data)
    offs = list(fixed) if fixed else [env.int_in("o%d" % i, 0, min(total, (1 << width) - 1)) for i in range(nb + 1)]
    junk = env.int_in("junk", 0, (1 << (8 * ((width + 7) // 8) - width)) - 1)   # unused bits of the index entry
    spec, prev = [], None
    for b in range(nb):
        env.assume(offs[b] <= offs[b + 1])
        pos, end = int_of(offs[b]), int_of(offs[b + 1])
        items = []
        while pos < end:
            env.assume(cells[pos] < len(lays))
            ty = int_of(cells[pos])
            env.assume(pos + 1 + lays[ty].size <= end)
            items.append((ty, lays[ty].decode(cells[pos + 1:pos + 1 + lays[ty].size])))
            pos += 1 + lays[ty].size
        spec.append(items)
    isz = (width + 7) // 8
    index = [((o | (junk << width)) >> (8 * i)) & 255 for o in offs for i in range(isz)]
    files = {"Arc.archive": bytes(16), "Arc.archive.schema": mod.n_Arc.schema().encode(),
             "r.schema": mod.n_Arc.resource_schema("r").encode(),
             "r_index.schema": ("index(%s)" % mod.n_Arc.resource_schema("r")).encode(),
             "r": mk_bytes(env, framed(cells)), "r_index": mk_bytes(env, framed(index))}
    return mod, mod.n_Arc(Storage(files)).r, spec


def same_bucket(env, mod, lays, got, want, label):
    env.prove(len(got) == len(want), label + ": number of elements")
    for g, (ty, rec) in zip(got, want):
        env.prove(type(g) is getattr(mod, "n_" + lays[ty].name), label + ": element type")
        env.prove(env.all(*[getattr(g, f) == v for f, v in rec.items()]), label + ": element value")


def access(width, lays, total, nb):
    def scenario(env):
        mod, r, spec = setup(env, width, lays, total, nb)
        env.prove(len(r) == nb, "length")
        for i in range(nb):
            same_bucket(env, mod, lays, r[i], spec[i], "bucket %d" % i)
            same_bucket(env, mod, lays, r[i - nb], spec[i], "bucket %d from the end" % (nb - i))
        env.prove(raises(IndexError, lambda: r[nb]) is not None, "index = length refused")
        env.prove(raises(IndexError, lambda: r[-nb - 1]) is not None, "index below -length refused")
        got = list(r)
        env.prove(len(got) == nb, "iteration length")
        for g, w in zip(got, spec):
            same_bucket(env, mod, lays, g, w, "iteration")
    return scenario


def slices(width, lays, total, nb, fixed):
    def scenario(env):
        mod, r, spec = setup(env, width, lays, total, nb, fixed)
        def bound(name, lo, hi):
            return env.int_in(name, lo, hi).__index__() if env.boolean("has_" + name) else None
        a, b, st = bound("start", -nb - 1, nb + 1), bound("stop", -nb - 1, nb + 1), bound("step", -2, 2)
        env.assume(st is None or st != 0)
        want = spec[a:b:st]
        got = list(r[a:b:st])
        env.prove(len(got) == len(want), "slice length")
        for g, w in zip(got, want):
            same_bucket(env, mod, lays, g, w, "slice")
    return scenario


def build():
    Bd = "<=3 buckets over <=12 data bytes: every valid content (symbolic tags, element bytes, index entries)"
    hs = []
    for width, lays, total, nb in [(33, [A, B], 8, 2), (8, [B], 6, 3), (16, [B, Dd], 7, 2), (40, [C, B], 11, 1),
                                   (5, [Dd, B], 6, 2), (64, [B, A], 7, 1), (32, [B], 0, 0), (32, [B], 0, 2)] + \
            tier([], [(33, [A, B], 12, 2), (12, [B, Dd], 9, 3), (63, [C, Dd], 12, 2)]):
        hs.append(PyHarness("access/%d/%s/%d/%d" % (width, "".join(l.name for l in lays), total, nb),
                            access(width, lays, total, nb), F, Bd, validate=4, weight=total))
    many = [Layout("S%d" % i, [("x", "u8", 1 + i % 7)]) for i in range(tier(160, 256))]
    hs.append(PyHarness("access/many", access(32, many, 2, 1), F, "one element of any of 160 (256) types", validate=4, weight=30))
    hs.append(PyHarness("slice/24/B", slices(24, [B], 6, 3, (0, 2, 2, 6)), F, Bd, validate=6, weight=20))
    return hs


if __name__ == "__main__":
    main("P05", build, ["tags are valid and elements end at bucket boundaries"],
         ["data with invalid tags or non-monotonic index (undefined by the format)", "larger multivectors"])
