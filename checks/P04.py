"""P04: Python vector and instance views."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from pylib import *

LAYOUTS = [
    Layout("A", [("a", "i16", 5), ("b", "u32", 32), ("c", "i32", 7), ("d", "u32", 32)]),
    Layout("B", [("x", "u8", 3)]),
    Layout("D", [("s", "bool", 1), ("t", "i64", 64), ("u", "u64", 63), ("v", "i8", 2)]),
    Layout("G", [("g", "u16", 9)]),
]
F = ["flatdata.lib.resources.Vector.*", "flatdata.lib.resources._VectorSlice.*", "flatdata.lib.resources.Instance.*",
     "flatdata.lib.resources.ResourceBase.*", "flatdata.lib.structure.Structure.*",
     "flatdata.lib.data_access.read_value"]


def setup(env, layout, n):
    schema = "namespace n { %s archive Arc { r : vector< %s >; } }" % (layout.text, layout.name)
    T = getattr(module(schema), "n_" + layout.name)
    payload = env.bytes("p", n * layout.size)
    mem = mk_bytes(env, framed(list(payload)))
    recs = [layout.decode(list(payload[i * layout.size:(i + 1) * layout.size])) for i in range(n)]
    return resources.Vector(mem, T), recs, T


def same(env, item, rec, label):
    env.prove(env.all(*[getattr(item, f) == v for f, v in rec.items()]), label)


def index(layout, n):
    def scenario(env):
        v, recs, T = setup(env, layout, n)
        env.prove(len(v) == n, "length")
        i = env.int_in("i", -2 * n - 3, 2 * n + 3)
        k = i.__index__()
        if -n <= k < n:
            item = v[i]
            same(env, item, recs[k], "item %d" % k)
            env.prove(type(item) is T, "item type")
        else:
            env.prove(raises(IndexError, lambda: v[i]) is not None, "out-of-range index %d is refused" % k)
        items = list(v)
        env.prove(len(items) == n, "iteration length")
        for it, r in zip(items, recs):
            same(env, it, r, "iteration")
            env.prove(env.all(*[x == y for x, y in zip(it.as_tuple(), [r[f[0]] for f in layout.fields])]),
                      "as_tuple keeps field order")
    return scenario


def bound(env, name, lo, hi):
    return env.int_in(name, lo, hi).__index__() if env.boolean("has_" + name) else None


def slices(layout, n, lo, hi, steps):
    def scenario(env):
        v, recs, T = setup(env, layout, n)
        a, b = bound(env, "start", lo, hi), bound(env, "stop", lo, hi)
        st = bound(env, "step", -steps, steps)
        env.assume(st is None or st != 0)
        want = list(range(n))[a:b:st]
        s = v[a:b:st]
        got = list(s)
        env.prove(len(got) == len(want), "slice length")
        for g, w in zip(got, want):
            same(env, g, recs[w], "slice item")
    return scenario


def tables(layout, n, limits):
    def scenario(env):
        v, recs, T = setup(env, layout, n)
        a, b = bound(env, "start", 0, n), bound(env, "stop", -1, n + 1)
        want = list(range(n))[a:b]
        lim = bound(env, "limit", 1, limits)
        rows = v[a:b].to_numpy(lim)
        keep = want if lim is None else want[:lim]
        env.prove(len(rows) == len(keep), "number of rows")
        env.prove(not any(r is None for r in rows), "every row is initialised")
        for r, w in zip(rows, keep):
            env.prove(env.all(*[x == y for x, y in zip(tuple(r), [recs[w][f[0]] for f in layout.fields])]), "row")
        name = layout.fields[-1][0]
        for view, idx in ((v[a:b], want), (v, range(n))):
            cols, data = frame_columns(getattr(view, name))
            env.prove(cols == [name] and len(data) == len(idx), "column shape")
            env.prove(env.all(*[d[0] == recs[w][name] for d, w in zip(data, idx)]), "column values")
    return scenario


def sizes(layout, n, extra):
    """arbitrary size header and arbitrary amount of memory"""
    schema = "namespace n { %s archive Arc { r : vector< %s >; } }" % (layout.text, layout.name)
    def scenario(env):
        T = getattr(module(schema), "n_" + layout.name)
        total = n * layout.size + extra
        mem = env.bytes("m", total)
        declared = sum((x << (8 * i) for i, x in enumerate(list(mem[:8]))), 0) if total >= 8 else None
        for cls in (resources.Vector, resources.Instance, resources.RawData):
            el = None if cls is resources.RawData else T
            opened = raises(CorruptResourceError, lambda: cls(mem, el)) is None
            ok = total >= 16 and bool(declared == total - 16)
            if ok and cls is resources.Vector:
                ok = (total - 16) % layout.size == 0
            if ok and cls is resources.Instance:
                ok = total - 16 == layout.size
            env.prove(opened == ok, "%s opens exactly when the declared size matches" % cls.__name__)
            if opened and cls is resources.Vector:
                env.prove(len(cls(mem, el)) == (total - 16) // layout.size, "length")
    return scenario


def instance(layout):
    schema = "namespace n { %s archive Arc { r : %s; } }" % (layout.text, layout.name)
    def scenario(env):
        T = getattr(module(schema), "n_" + layout.name)
        payload = env.bytes("p", layout.size)
        v = resources.Instance(mk_bytes(env, framed(list(payload))), T)
        rec = layout.decode(list(payload))
        same(env, v, rec, "instance attributes")
        i = env.int_in("i", -5, 5)
        if (i == 0) | (i == -1):
            same(env, v[i], rec, "instance item")
        else:
            env.prove(raises(IndexError, lambda: v[i]) is not None, "other indices are refused")
        env.prove(len(v) == 1 and len(list(v)) == 1, "one item")
        same(env, list(v)[0], rec, "iteration")
    return scenario


def build():
    hs = []
    B = "vectors of 0..5 items (thorough 8); every index in [-2n-3,2n+3]; every slice with bounds in [-n-2,n+2], step in [-3,3]; contents and size header symbolic"
    for l in LAYOUTS:
        for n in range(0, tier(4, 7)):
            hs.append(PyHarness("index/%s/%d" % (l.name, n), index(l, n), F, B, validate=4))
        hs.append(PyHarness("instance/" + l.name, instance(l), F, B, validate=4))
        for n in range(0, 4):
            hs.append(PyHarness("table/%s/%d" % (l.name, n), tables(l, n, n + 3), F, B, validate=4,
                                overrides=PANDAS, weight=3))
        for n, e in ((0, 0), (0, 8), (0, 15), (0, 16), (1, 16), (2, 16), (3, 16), (1, 17), (2, 15), (0, 24)):
            hs.append(PyHarness("size/%s/%d+%d" % (l.name, n, e), sizes(l, n, e), F, B, validate=4))
    for l, n in ((LAYOUTS[0], 3), (LAYOUTS[1], 4), (LAYOUTS[3], 5)) + tier((), ((LAYOUTS[3], 7), (LAYOUTS[0], 5))):
        hs.append(PyHarness("slice/%s/%d" % (l.name, n), slices(l, n, -n - 2, n + 2, 3), F, B, validate=10, weight=9))
    return hs


if __name__ == "__main__":
    main("P04", build,
         ["numpy and pandas are replaced by recording stand-ins in the symbolic runs; the replayed "
          "witnesses use the real libraries"],
         ["larger vectors", "text representations"])
