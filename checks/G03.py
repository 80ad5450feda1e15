"""G03: constants and their use in @const / @optional."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from gen import *


def constant(base, lo, hi):
    full, signed = TYPES[base]
    def scenario(env):
        v = env.int_in("v", lo, hi)
        engine = compile_schema("namespace n { const %s C = %s; struct T { a : u8; } }" % (base, env.literal(v)))
        ok = fits(v, full, signed)
        if engine is None:
            env.prove(not ok, "a constant that fits its type is accepted")
            return
        env.prove(ok, "a constant that does not fit its type is rejected")
        node = engine.tree.find(".n.C")
        env.prove(env.all(node.value == v, node.type.name == base), "constant keeps its value and type")
        env.observe("value", node.value)
    return scenario


def decorated(kind, cbase, fbase, extra=False):
    """Field decorated with a constant: types must agree and the value must fit the field's width."""
    cw, csigned = TYPES[cbase]
    fw, fsigned = TYPES[fbase]
    def scenario(env):
        v = env.int_in("v", -(1 << (cw - 1)) if csigned else 0, (1 << (cw - 1)) - 1 if csigned else (1 << cw) - 1)
        w = env.int_in("w", 1, fw)
        engine = compile_schema(
            "namespace n { const %s C = %s; const %s Z = 0; const %s Y = 1; struct T { p : u8 : 3; %s@%s( C ) %s f : %s : %s; g : u16; } archive A { r : vector< T >; } }"
            % (cbase, env.literal(v), cbase, cbase, "@const( Z ) " if extra else "", kind,
               "@const( Y ) " if extra else "", fbase, env.literal(w)))
        ok = cbase == fbase and bool(fits(v, w, fsigned)) and (not extra or bool(fits(1, w, fsigned)))
        if engine is None:
            env.prove(not ok, "a decoration with a fitting constant of the field's type is accepted")
            return
        env.prove(ok, "a decoration with a constant of another type or not fitting the field is rejected")
        f = [x for x in engine.tree.find(".n.T").fields if x.name == "f"][0]
        if kind == "optional":
            env.prove(f.invalid_value is not None and f.invalid_value.target == ".n.C", "sentinel constant of the field")
            env.prove(env.all(f.invalid_value.node.value == v), "sentinel value")
        else:
            env.prove(f.invalid_value is None, "a plain constant list does not make a field optional")
            env.prove(".n.C" in [r.target for r in f.const_value_refs], "constant listed on the field")
        env.prove(env.all(f.offset == 3, f.type.width == w), "decorations do not change the layout")
    return scenario


def two_sentinels(base):
    """Two @optional decorations on one field are rejected whatever the constants are."""
    w, signed = TYPES[base]
    def scenario(env):
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        a, b = env.int_in("a", lo, hi), env.int_in("b", lo, hi)
        two = env.boolean("two")
        deco = "@optional( A ) @optional( B )" if two else "@optional( A ) @const( B )"
        e = compile_schema("namespace n { const %s A = %s; const %s B = %s; struct T { %s f : %s; } }"
                           % (base, env.literal(a), base, env.literal(b), deco, base))
        env.prove((e is None) == bool(two), "a field has at most one sentinel")
    return scenario


def build():
    F = GEN_FUNCS
    B = "constants of every basic type with symbolic values in [-2^66, 2^66]; field widths symbolic in 1..type width"
    hs = []
    for t in TYPES:
        hs.append(PyHarness("const/%s" % t, constant(t, -(1 << 66), 1 << 66), F, B, validate=6))
    for kind in ("const", "optional"):
        for t in TYPES:
            hs.append(PyHarness("%s/%s" % (kind, t), decorated(kind, t, t), F, B, validate=6))
            if t != "bool":
                hs.append(PyHarness("%s/more/%s" % (kind, t), decorated(kind, t, t, True), F, B, validate=6))
        names = list(TYPES)
        for i, c in enumerate(names):
            for f in (names if THOROUGH else [names[(i + 1) % 9], names[(i + 2) % 9]]):
                if c != f:
                    hs.append(PyHarness("%s/mismatch/%s-%s" % (kind, c, f), decorated(kind, c, f), F, B, validate=2))
    for t in ("u8", "i32", "u64"):
        hs.append(PyHarness("twice/%s" % t, two_sentinels(t), F, B, validate=4))
    return hs


if __name__ == "__main__":
    main("G03", build, ["decimal literals of the schema stand for symbolic values"],
         ["hexadecimal spelling of literals", "enumeration-typed fields with constants"])
