"""P03: Python builder -> bytes -> Python reader."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from pylib import *

BIG = Layout("Big", [("f%d" % i, "u64", 64) for i in range(11)])
LAYOUTS = [
    Layout("A", [("a", "i16", 5), ("b", "u32", 32), ("c", "i32", 7), ("d", "u32", 32)]),
    Layout("B", [("x", "u8", 3)]),
    Layout("C", [("p", "u64", 64), ("q", "i8", 8)]),
    Layout("D", [("s", "bool", 1), ("t", "i64", 64), ("u", "u64", 63), ("v", "i8", 2)]),
    Layout("E", [("h", "u16", 9), ("k", "i64", 33), ("l", "i16", 13), ("m", "u8", 1)]),
]
F = ["flatdata.lib.archive_builder.ArchiveBuilder.*", "flatdata.lib.archive_builder.IndexWriter.*",
     "flatdata.lib.resource_storage.*", "flatdata.lib.data_access.write_value",
     "flatdata.lib.data_access.read_value", "flatdata.lib.resources.*", "flatdata.lib.archive.Archive.*",
     "generated archive, builder and structure classes"]


def build_and_open(env, mod, sets, label):
    """Runs the builder for [(resource, value)], returns (files, opened archive)"""
    cap = Capture()
    builder = mod.n_ArcBuilder(resource_storage.ResourceStorage(cap, "somewhere"))
    for name, value in sets:
        builder.set(name, value)
    builder.finish()
    env.prove(set(cap.files) == cap.closed, label + ": every file is completed")
    return cap.files


def check_schemas(env, mod, files, names, label):
    A = mod.n_Arc
    same_bytes(env, files["Arc.archive"], [0] * 16, label + ": archive signature")
    env.prove(bytes(files["Arc.archive.schema"]) == A.schema().encode(), label + ": archive schema")
    for n in names:
        env.prove(bytes(files[n + ".schema"]) == A.resource_schema(n).encode(), label + ": schema of " + n)


def instance(layout):
    schema = "namespace n { %s archive Arc { r : %s; } }" % (layout.text, layout.name)
    def scenario(env):
        mod = module(schema)
        rec = layout.symbolic(env, "v")
        files = build_and_open(env, mod, [("r", dict(rec))], "instance")
        same_bytes(env, files["r"], framed(layout.encode(rec)), "instance bytes")
        check_schemas(env, mod, files, ["r"], "instance")
        arc = mod.n_Arc(Storage(files))
        env.prove(env.all(*[getattr(arc.r, n) == rec[n] for n, *_ in layout.fields]), "instance read back")
        env.prove(len(arc.r) == 1, "instance length")
    return scenario


def vector(layout, n):
    schema = "namespace n { %s archive Arc { r : vector< %s >; } }" % (layout.text, layout.name)
    def scenario(env):
        mod = module(schema)
        recs = [layout.symbolic(env, "v%d" % i) for i in range(n)]
        files = build_and_open(env, mod, [("r", [dict(r) for r in recs])], "vector")
        payload = [x for r in recs for x in layout.encode(r)]
        same_bytes(env, files["r"], framed(payload), "vector bytes")
        check_schemas(env, mod, files, ["r"], "vector")
        arc = mod.n_Arc(Storage(files))
        env.prove(arc.r is not None and len(arc.r) == n, "vector length")
        for i, item in enumerate(arc.r):
            env.prove(env.all(*[getattr(item, f) == recs[i][f] for f, *_ in layout.fields]), "vector item %d" % i)
    return scenario


def multivector(width, lays, buckets, per):
    schema = "namespace n { %s archive Arc { r : multivector< %d, %s >; } }" % (
        " ".join(l.text for l in lays), width, ", ".join(l.name for l in lays))
    def scenario(env):
        mod = module(schema)
        value, flat, index, k = [], [], [], 0
        shape = []
        nb = env.int_in("buckets", 0, buckets).__index__()
        for b in range(nb):
            index.append(len(flat))
            bucket, kinds = [], []
            for j in range(env.int_in("len%d" % b, 0, per).__index__()):
                ty = env.int_in("type%d_%d" % (b, j), 0, len(lays) - 1).__index__()
                l = lays[ty]
                rec = l.symbolic(env, "v%d" % k)
                k += 1
                bucket.append({"name": "n_" + l.name, "attributes": dict(rec)})
                kinds.append((ty, rec))
                flat += [ty] + l.encode(rec)
            value.append(bucket)
            shape.append(kinds)
        index.append(len(flat))
        if len(flat) >= 1 << width:
            # the offset cannot be represented in the index: must be refused, not truncated
            cap = Capture()
            builder = mod.n_ArcBuilder(resource_storage.ResourceStorage(cap, "somewhere"))
            env.prove(raises((IndexWriterError, OverflowError), lambda: builder.set("r", value)) is not None,
                      "multivector beyond the index range is refused")
            return
        files = build_and_open(env, mod, [("r", value)], "multivector")
        same_bytes(env, files["r"], framed(flat), "multivector data bytes")
        isz = (width + 7) // 8
        same_bytes(env, files["r_index"], framed([(o >> (8 * i)) & 255 for o in index for i in range(isz)]),
                   "multivector index bytes")
        check_schemas(env, mod, files, ["r"], "multivector")
        env.prove(bytes(files["r_index.schema"]) == ("index(%s)" % mod.n_Arc.resource_schema("r")).encode(),
                  "index schema")
        arc = mod.n_Arc(Storage(files))
        env.prove(arc.r is not None and len(arc.r) == nb, "multivector length")
        for b, items in enumerate(arc.r):
            env.prove(len(items) == len(shape[b]), "bucket length")
            for item, (ty, rec) in zip(items, shape[b]):
                env.prove(type(item) is getattr(mod, "n_" + lays[ty].name), "element type")
                env.prove(env.all(*[getattr(item, f) == rec[f] for f, *_ in lays[ty].fields]), "element value")
    return scenario


def raw(n):
    schema = "namespace n { archive Arc { r : raw_data; } }"
    def scenario(env):
        mod = module(schema)
        data = env.bytes("d", n, "bytearray" if n % 2 else "bytes")
        files = build_and_open(env, mod, [("r", data)], "raw data")
        same_bytes(env, files["r"], framed(list(data)), "raw data bytes")
        check_schemas(env, mod, files, ["r"], "raw data")
        arc = mod.n_Arc(Storage(files))
        env.prove(arc.r is not None and len(arc.r) == n, "raw data length")
        same_bytes(env, arc.r[0:n], list(data), "raw data read back")
    return scenario


def raw_other(n, kind):
    """data of other types is stored as its bytes or refused, never dropped"""
    schema = "namespace n { archive Arc { r : raw_data; } }"
    def scenario(env):
        mod = module(schema)
        data = env.bytes("d", n, "memoryview") if kind == "memoryview" else "x" * n if kind == "text" else [7] * n
        want = list(data) if kind == "memoryview" else [ord("x") if kind == "text" else 7] * n
        if kind == "memoryview" and not env.symbolic:
            data = memoryview(bytes(data))
        cap = Capture()
        builder = mod.n_ArcBuilder(resource_storage.ResourceStorage(cap, "somewhere"))
        try:
            builder.set("r", data)
        except (TypeError, ValueError):
            env.prove(n > 0 or kind != "memoryview", "refused")
            return
        builder.finish()
        same_bytes(env, cap.files["r"], framed(want), "raw data bytes")
    return scenario


def protocol(layout):
    """misuse is refused and leaves what was written before intact"""
    schema = ("namespace n { %s struct Other { o : u8 : 5; } archive Arc { r : %s; w : vector< %s >; "
              "m : multivector< 16, Other, %s >; first : raw_data; } }"
              % (layout.text, layout.name, layout.name, layout.name))
    names = [f[0] for f in layout.fields]
    def scenario(env):
        mod = module(schema)
        cap = Capture()
        builder = mod.n_ArcBuilder(resource_storage.ResourceStorage(cap, "somewhere"))
        first = env.bytes("first", 2)
        builder.set("first", first)
        rec, rec2 = layout.symbolic(env, "v"), layout.symbolic(env, "u")
        present = [bool(env.boolean("has_" + n)) for n in names]
        extra = bool(env.boolean("extra"))
        value = {n: rec[n] for n, p in zip(names, present) if p}
        if extra:
            value["no_such_field"] = 1
        kind = int(env.int_in("kind", 0, 2))
        what = "rwm"[kind]
        def item(x):
            return {"name": "n_" + layout.name, "attributes": x}
        wrong_name = kind == 2 and bool(env.boolean("wrong_name"))
        arg = [value, [dict(rec2), value], [[item(dict(rec2))], [], [item(dict(rec2)), item(value)]]][kind]
        good = [dict(rec), [dict(rec2), dict(rec)], [[item(dict(rec2))], [], [item(dict(rec2)), item(dict(rec))]]][kind]
        if wrong_name:
            arg[2][1]["name"] = "NoSuch"
        before = {k: v for k, v in cap.files.items()}
        refused = True
        if wrong_name:
            env.prove(raises(UnknownStructureError, lambda: builder.set(what, arg)) is not None, "unknown structure refused")
        elif not all(present):
            env.prove(raises(MissingFieldError, lambda: builder.set(what, arg)) is not None, "missing field refused")
        elif extra:
            env.prove(raises(UnknownFieldError, lambda: builder.set(what, arg)) is not None, "unknown field refused")
        else:
            refused = False
            builder.set(what, arg)
        if refused:
            for k, v in before.items():
                same_bytes(env, cap.files[k], list(v), "refused data leaves %s unchanged" % k)
            for k in (what, what + "_index"):
                env.prove(k not in cap.files or len(cap.files[k]) == 0, "nothing of refused data is written")
            if bool(env.boolean("give_up")):
                builder.finish()
                for k in (what, what + "_index"):
                    env.prove(k not in cap.files or len(cap.files[k]) == 0, "nothing of refused data is written when the archive is finished")
                for k, v in before.items():
                    same_bytes(env, cap.files[k], list(v), "refused data leaves %s unchanged" % k)
                return
            builder.set(what, good)
        env.prove(raises(ResourceAlreadySetError, lambda: builder.set(what, good)) is not None, "second set refused")
        env.prove(raises(UnknownResourceError, lambda: builder.set("nope", good)) is not None, "unknown resource refused")
        one, two = layout.encode(rec2), layout.encode(rec)
        want = framed([two, one + two, [1] + one + [1] + one + [1] + two][kind])
        same_bytes(env, cap.files[what], want, "first value is kept")
        if kind == 2:
            z = layout.size + 1
            same_bytes(env, cap.files["m_index"], framed([b for o in (0, z, z, 3 * z) for b in (o & 255, o >> 8)]), "index is kept")
        same_bytes(env, cap.files["first"], framed(list(first)), "other resources are kept")
    return scenario


def build():
    hs = []
    B = "instances; vectors of 0..4 items; multivectors of <=3 buckets x <=2 items x 2 types; raw data of 0..9 bytes; every field value symbolic"
    for l in LAYOUTS:
        hs.append(PyHarness("instance/" + l.name, instance(l), F, B, validate=3))
        for n in range(0, tier(4, 9)):
            hs.append(PyHarness("vector/%s/%d" % (l.name, n), vector(l, n), F, B, validate=3))
    A, Bl, C, D, E = LAYOUTS
    for width, lays, nb, per in [(33, [A, Bl], 2, 2), (8, [Bl, C], 2, 2), (40, [D], 3, 1), (64, [E, D], 2, 1),
                                 (17, [Bl, Bl.__class__("B2", [("y", "u32", 32)])], 2, 2), (4, [Bl, C], 2, 2),
                                 (5, [C, A], 2, 2), (8, [BIG, Bl], 3, 1)] + \
            tier([], [(24, [A, C, E], 2, 2), (32, [Bl, C], 3, 2), (9, [D, E], 2, 2)]):
        hs.append(PyHarness("multivector/%d/%s" % (width, "".join(l.name for l in lays)),
                            multivector(width, lays, nb, per), F, B, validate=3, weight=5))
    for n in list(range(0, 6)) + tier([9], [7, 9, 16, 33]):
        hs.append(PyHarness("raw/%d" % n, raw(n), F, B, validate=3))
        for kind in ("memoryview", "text", "list"):
            hs.append(PyHarness("raw/%s/%d" % (kind, n), raw_other(n, kind), F, B, validate=3))
    for l in (A, E):
        hs.append(PyHarness("protocol/" + l.name, protocol(l), F, B, validate=3))
    return hs


if __name__ == "__main__":
    main("P03", build,
         ["files are written through a recording stand-in for the operating system's files"],
         ["values that do not fit their field", "sub-archives (the Python builder cannot write them)",
          "operating-system file errors", "larger resources than the bounds"])
