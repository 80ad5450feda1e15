"""G02: enumerations."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from gen import *


def enum(base, width, pattern, lo, hi):
    """pattern: for each enumerator True if it has an explicit (symbolic) value."""
    full, signed = TYPES[base]
    w = full if width is None else width

    def scenario(env):
        vals, cur, decl = [], 0, []
        for i, explicit in enumerate(pattern):
            if explicit:
                cur = env.int_in("v%d" % i, lo, hi)
                decl.append("V%d = %s" % (i, env.literal(cur)))
            else:
                decl.append("V%d" % i)
            vals.append(cur)
            cur = cur + 1
        schema = "namespace n { enum E : %s%s { %s } }" % (base, "" if width is None else " : %d" % width, ", ".join(decl))
        engine = compile_schema(schema)
        legal = True
        for i, v in enumerate(vals):
            if not fits(v, w, signed):
                legal = False
            for o in vals[:i]:
                if o == v:
                    legal = False
        if 2 ** w > 256 + 2 * len(vals):
            legal = False           # too sparse: documented restriction
        if engine is None:
            env.prove(not legal, "a well-formed enumeration is accepted")
            return
        env.prove(legal, "duplicate, out-of-range and too sparse enumerations are rejected")
        node = engine.tree.find(".n.E")
        nodes = node.values
        env.prove(node.type.width == w and node.type.is_signed == signed, "enumeration type")
        declared = [x for x in nodes if not x.auto_generated]
        env.prove([x.name for x in declared] == ["V%d" % i for i in range(len(vals))], "declared names, in order")
        env.prove(env.all(*[x.value == v for x, v in zip(declared, vals)]), "declared values")
        rng = range(-(1 << (w - 1)), 1 << (w - 1)) if signed else range(1 << w)
        env.prove(len(nodes) == 1 << w, "every representable value is named exactly once")
        env.prove(len(set(x.name for x in nodes)) == len(nodes), "names are unique")
        for r in rng:
            hit = [x for x in nodes if bool(x.value == r)]
            env.prove(len(hit) == 1, "value %d is named exactly once" % r)
            if hit and hit[0].auto_generated:
                env.prove(hit[0].name == "UNKNOWN_VALUE_" + ("MINUS_%d" % -r if r < 0 else "%d" % r),
                          "name of a filled-in value")
    return scenario


def enum_field(base, width):
    """A field of enumeration type takes the enumeration's width and signedness."""
    full, signed = TYPES[base]
    def scenario(env):
        fw = env.int_in("fw", 1, 70)
        schema = ("namespace n { enum E : %s : %d { A%s } struct T { p : u8 : 3; e : E : %s; q : E; } archive X { v : vector< T >; } }"
                  % (base, width, "", env.literal(fw)))
        engine = compile_schema(schema)
        if engine is None:
            env.prove(fw != width, "the enumeration's own width is accepted on a field")
            return
        env.prove(fw == width, "any other width on the field is rejected")
        t = python_classes(engine)["n_T"]
        e, q = t._FIELDS["e"], t._FIELDS["q"]
        env.prove(env.all(env.value(e.offset) == 3, env.value(e.width) == width, e.is_signed == signed,
                          env.value(q.offset) == 3 + width, env.value(q.width) == width, q.is_signed == signed),
                  "enumeration-typed fields are laid out with the enumeration's width and sign")
    return scenario


def large(base, n, width):
    """Sparsity limit at larger sizes: n enumerators, one of them with a symbolic value."""
    full, signed = TYPES[base]
    def scenario(env):
        k = env.int_in("k", -3, (1 << width) + 3)
        decl = ["A%d" % i for i in range(n - 1)] + ["Z = %s" % env.literal(k)]
        engine = compile_schema("namespace n { enum E : %s : %d { %s } }" % (base, width, ", ".join(decl)))
        legal = True
        if not fits(k, width, signed) or not fits(n - 2, width, signed):
            legal = False
        elif (k >= 0) and (k <= n - 2):
            legal = False
        if 2 ** width > 256 + 2 * n:
            legal = False
        if engine is None:
            env.prove(not legal, "a dense enough enumeration is accepted")
            return
        env.prove(legal, "sparse or conflicting enumerations are rejected")
        env.prove(len(engine.tree.find(".n.E").values) == 1 << width, "complete")
    return scenario


def build():
    F = GEN_FUNCS
    B = ("enumerations of up to 4 enumerators with symbolic values, widths 1..4 for all base types (values -20..300 "
         "and the 32-bit extremes), larger ones with one symbolic value")
    hs = []
    for base in ("u8", "i8", "u16", "i16", "u32", "i64", "u64", "bool"):
        full, signed = TYPES[base]
        for width in (None, 1, 2, 3, 4):
            if width is not None and width > full:
                continue
            if width is None and full > 8:
                lo, hi = -40000, 70000
            else:
                lo, hi = (-20, 300)
            for pattern in ([(1,), (0, 1), (1, 0), (1, 1), (0, 0, 0), (1, 0, 0), (1, 1, 0), (1, 0, 1)] + ([(1, 1, 1), (1, 0, 1, 0), (1, 1, 0, 0)] if THOROUGH else [])):
                if width is None and full == 8 and (sum(pattern) > 1 or (base == "i8" and not THOROUGH)):
                    continue
                if not THOROUGH and base in ("u16", "i64") and len(pattern) == 2:
                    continue
                if width == 4 and sum(pattern) > 1 and not THOROUGH:
                    continue
                if len(pattern) > 2 and sum(pattern) > 1 and not THOROUGH and (base not in ("u8", "i8") or width not in (2, 3)):
                    continue
                hs.append(PyHarness("enum/%s/%s/%s" % (base, width, "".join(map(str, pattern))),
                                    enum(base, width, pattern, lo, hi), F, B, validate=4,
                                    weight=(1 << (width or 8)) ** min(2, sum(pattern))))
    hs.append(PyHarness("enum/i32/extreme", enum("i32", 2, (1, 1), -(1 << 40), 1 << 40), F, B, validate=4))
    for base, w in (("u8", 1), ("u8", 8), ("i8", 3), ("i16", 6), ("u32", 7), ("i64", 1)):
        hs.append(PyHarness("field/%s/%d" % (base, w), enum_field(base, w), F, B, validate=4))
    for base, n, w in (("u16", 3, 8), ("u16", 127, 9), ("u16", 128, 9), ("u16", 129, 9), ("i16", 128, 9),
                       ("i16", 2, 8)) + ((("u32", 383, 10), ("u32", 384, 10), ("u16", 385, 10)) if THOROUGH else ()):
        hs.append(PyHarness("large/%s/%d/%d" % (base, n, w), large(base, n, w), F, B, validate=2,
                            max_paths=5000, weight=1 << w))
    return hs


if __name__ == "__main__":
    main("G02", build,
         ["decimal literals of the schema stand for symbolic values (int() of the literal token)",
          "set membership inside the generator is decided by symbolic equality, not by hash"],
         ["enumerations of more than 10 bits", "documentation comments of enumerators"])
