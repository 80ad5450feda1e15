"""G01: structure layout."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from gen import *

ENUM = "enum E : u8 : 2 { A, B, C = 3 }\nenum S : i16 : 5 { X = -3, Y = 4, Z }\n"


def layout(fields, decor="", where="vector", ns="n.m"):
    """fields: list of (type, explicit?); every explicit width is a symbolic integer 1..80."""
    def scenario(env):
        ws, decl, limit, signed = [], "", [], []
        for i, (t, explicit) in enumerate(fields):
            if t in TYPES:
                full, sg = TYPES[t]
            else:
                full, sg = {"E": (2, False), "S": (5, True)}[t]
            limit.append((full, t in TYPES))
            signed.append(sg)
            w = env.int_in("w%d" % i, 1, 80) if explicit else full
            ws.append(w)
            d = decor if i == 0 else ""
            decl += "%s f%d : %s%s;\n" % (d, i, t, " : " + env.literal(w) if explicit else "")
        res = {"vector": "r : vector< T >;", "instance": "r : T;", "multi": "r : multivector< 40, T, U >;"}[where]
        schema = ("namespace %s {\n%sconst u8 K = 1;\nstruct U { u : u16 : 11; }\nstruct T {\n%s}\narchive A { %s }\n}\n"
                  % (ns, ENUM, decl, res))
        engine = compile_schema(schema)
        legal = True
        for w, (full, basic) in zip(ws, limit):
            if not ((w <= full) if basic else (w == full)):
                legal = False
        if engine is None:
            env.prove(not legal, "a schema whose widths fit their types is accepted")
            return
        env.prove(legal, "a width that does not fit its type is rejected")
        path = "." + ns + ".T"
        node = engine.tree.find(path)
        offset = 0
        conj = []
        env.prove([f.name for f in node.fields] == ["f%d" % i for i in range(len(ws))],
                  "fields keep their declaration order")
        for f, w in zip(node.fields, ws):
            conj += [f.offset == offset, f.type.width == w]
            offset = offset + w
        conj += [node.size_in_bits == offset, node.size_in_bytes == (offset + 7) // 8]
        env.prove(env.all(*conj), "consecutive layout in the schema tree")
        # the layout the generated Python code uses
        cls = python_classes(engine)[ns.replace(".", "_") + "_T"]
        env.prove(list(cls._FIELDS) == ["f%d" % i for i in range(len(ws))], "generated fields, in order")
        conj, offset = [], 0
        for (name, sig), w, sg in zip(cls._FIELDS.items(), ws, signed):
            conj += [env.value(sig.offset) == offset, env.value(sig.width) == w, sig.is_signed == sg]
            offset = offset + w
        conj += [env.value(cls._SIZE_IN_BITS) == offset,
                 env.value(cls._SIZE_IN_BYTES) == (offset + 7) // 8]
        env.prove(env.all(*conj), "generated code uses the consecutive layout")
        env.observe("size", env.value(cls._SIZE_IN_BYTES))
    return scenario


def index_width(k):
    """Builtin multivector index structure: one unsigned field of the requested width."""
    def scenario(env):
        w = env.int_in("w", 1, 90)
        schema = ("namespace n { struct T { a : u8; } archive A { r : multivector< %s, T >; } "
                  "archive B { s : multivector< 17, T >; } }" % env.literal(w))
        engine = compile_schema(schema)
        if engine is None:
            env.prove(w > 64, "an index of at most 64 bits is accepted")
            return
        env.prove(w <= 64, "an index wider than 64 bits is rejected")
        d = python_classes(engine)
        sig = d["n_A"]._RESOURCES["r"].initializer
        idx = sig[0]
        f = list(idx._FIELDS.values())
        env.prove(len(f) == 1 and not f[0].is_signed, "one unsigned index field")
        env.prove(env.all(env.value(f[0].offset) == 0, env.value(f[0].width) == w,
                          env.value(idx._SIZE_IN_BYTES) == (w + 7) // 8), "index layout")
        sub = d["n_B"]._RESOURCES["s"].initializer[0]
        sf = list(sub._FIELDS.values())[0]
        env.prove(env.all(sf.offset == 0, sf.width == 17, sub._SIZE_IN_BYTES == 3), "other index layout")
    return scenario


def build():
    F = GEN_FUNCS + ["flatdata.generator.generators.python.*", "templates/py/python.jinja2"]
    B = ("structures of up to 5 (thorough: 8) fields over all basic types and enums; every explicit width "
         "symbolic in 1..80")
    hs = []
    sets = [
        [("u8", 1)], [("i64", 1)], [("bool", 1), ("bool", 0)],
        [("u32", 1), ("i16", 1), ("u64", 1)],
        [("u64", 1), ("u64", 1), ("u64", 1), ("u64", 1)],
        [("i8", 1), ("u8", 0), ("i32", 1), ("u16", 1)],
        [("E", 0), ("u32", 1), ("S", 0), ("i64", 1)],
        [("E", 1), ("u8", 1)], [("u16", 1), ("S", 1)],
        [("u16", 0), ("i16", 0), ("u32", 0), ("i32", 0), ("u64", 0), ("i64", 0), ("bool", 0), ("u8", 0), ("i8", 0)],
        [("i32", 1), ("bool", 1), ("u8", 1), ("i64", 1), ("u16", 1)],
    ]
    if THOROUGH:
        import random
        rnd = random.Random(SEED)
        names = list(TYPES) + ["E", "S"]
        for _ in range(60):
            sets.append([(rnd.choice(names), rnd.random() < .8) for _ in range(rnd.randint(2, 8))])
    for i, s in enumerate(sets):
        for where in (("vector", "instance", "multi") if THOROUGH or i < 4 else (("vector", "instance", "multi")[i % 3],)):
            hs.append(PyHarness("layout/%s/%s" % ("-".join(t + ("" if e else "d") for t, e in s), where) + "/%d" % i,
                                layout(s, where=where, ns=("n.m", "a", "x.y.z")[i % 3]), F, B, validate=3, weight=len(s)))
    hs.append(PyHarness("layout/range", layout([("u32", 1), ("u64", 1)], decor="@range(rr)\n"), F, B, validate=3))
    hs.append(PyHarness("index", index_width(0), F, B, validate=3))
    return hs


if __name__ == "__main__":
    main("G01", build,
         ["decimal literals of the schema stand for the symbolic widths: int() of the literal token yields the symbolic value"],
         ["width 0", "structures with more fields than the bound", "layout emitted for C++ and Rust (see the codec checks of compiled generated code)"])
