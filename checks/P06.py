"""P06: Python raw data."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from pylib import *

F = ["flatdata.lib.resources.RawData.*", "flatdata.lib.resources.ResourceBase.*"]


def setup(env, n, ascii_only=False):
    data = env.bytes("d", n)
    cells = list(data)
    if ascii_only:
        for c in cells:
            env.assume(c < 128)
    return resources.RawData(mk_bytes(env, framed(cells)), None), cells


def bound(env, name, lo, hi):
    return env.int_in(name, lo, hi).__index__() if env.boolean("has_" + name) else None


def items(n):
    def scenario(env):
        r, cells = setup(env, n)
        env.prove(len(r) == n, "length")
        i = env.int_in("i", -n - 2, n + 10)
        k = i.__index__()
        if -n <= k < n:
            same_bytes(env, r[i], [cells[k]], "single byte")
        else:
            env.prove(raises(IndexError, lambda: r[i]) is not None, "out of range index refused")
    return scenario


def slices(n, steps):
    def scenario(env):
        r, cells = setup(env, n)
        a, b = bound(env, "start", -n - 2, n + 9), bound(env, "stop", -n - 2, n + 9)
        st = bound(env, "step", -1, 2) if steps else None
        env.assume(st is None or st != 0)
        same_bytes(env, r[a:b:st], cells[a:b:st], "slice")
    return scenario


def at(env, cells, i, sep):
    return i + len(sep) <= len(cells) and bool(env.all(*[cells[i + k] == s for k, s in enumerate(sep)]))


def same_strings(env, got, want, label):
    env.prove(len(got) == len(want), label + ": number of strings")
    for g, w in zip(got, want):
        b = g.encode()
        env.prove(len(b) == len(w), label + ": string length")
        env.prove(env.all(*[x == y for x, y in zip(list(b), w)]), label + ": string content")


def pieces(env, cells, i, sep):
    out, start = [], i
    while i < len(cells):
        if at(env, cells, i, sep):
            out.append((start, cells[start:i]))
            i += len(sep)
            start = i
        else:
            i += 1
    return out, start


def strings(n, sep):
    def scenario(env):
        r, cells = setup(env, n, True)
        i = env.int_in("i", 0, n).__index__()
        parts, rest = pieces(env, cells, i, sep)
        want = parts[0][1] if parts else cells[i:]
        args = () if sep == b"\0" else (sep,)
        same_strings(env, [r.sub_str(i, *args)], [want], "string at an offset")
        k = env.int_in("k", 1, n + 1).__index__()
        same_strings(env, r.sub_str_array(i, k, *args), [p for _, p in parts][:k], "array of strings")
    return scenario


def string_lists(n, sep, lsep):
    def scenario(env):
        r, cells = setup(env, n, True)
        i = env.int_in("i", 0, n).__index__()
        parts, rest = pieces(env, cells, i, sep)
        want = []
        for start, p in parts + [(rest, None)]:
            if p is None or at(env, cells, start, lsep):
                break
            want.append(p)
        args = () if sep == b"\0" else (sep, lsep)
        same_strings(env, r.sub_str_list(i, *args), want, "list of strings")
    return scenario


def build():
    B = "raw data of 0..5 bytes (thorough 8): every content, index, slice, separator position"
    hs = []
    for n in range(0, tier(5, 8)):
        hs.append(PyHarness("item/%d" % n, items(n), F, B, validate=6))
    for n in range(0, tier(4, 6)):
        hs.append(PyHarness("slice/%d" % n, slices(n, n <= 3), F, B, validate=6, weight=n))
    for n in range(0, tier(6, 8)):
        for sep in (b"\0", b"ab", b"--", b","):
            hs.append(PyHarness("sub_str/%d/%s" % (n, sep.hex()), strings(n, sep), F, B, validate=6, weight=n))
        for sep, lsep in ((b"\0", b"\0\0"), (b",", b";"), (b"ab", b"c")):
            hs.append(PyHarness("sub_str_list/%d/%s" % (n, sep.hex()), string_lists(n, sep, lsep), F, B,
                                validate=6, weight=n))
    return hs


if __name__ == "__main__":
    main("P06", build, ["strings are ASCII (one byte per character)"],
         ["non-ASCII text", "larger raw data"])
