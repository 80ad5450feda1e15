"""G04: explicit references bound the referenced resource."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from gen import *


def refs(dest, nrefs, src_multi=False, sub=False):
    DEST = {"vector": "dst : vector< U >;", "multivector": "dst : multivector< 32, U >;", "raw": "dst : raw_data;"}
    def scenario(env):
        ws = [env.int_in("w%d" % i, 1, 64) for i in range(nrefs)]
        fields = "".join("f%d : u64 : %s; " % (i, env.literal(w)) for i, w in enumerate(ws))
        deco = "".join("@explicit_reference( T.f%d, dst )\n" % i for i in range(nrefs))
        src = "src : multivector< 32, U, T >;" if src_multi else "src : vector< T >;"
        other = "@explicit_reference( U.u, src ) other : vector< U >;" if sub else ""
        engine = compile_schema("namespace n { struct U { u : u32 : 7; } struct T { pad : u8 : 5; %s } archive A { %s%s %s %s free : vector< U >; } }"
                                % (fields, deco, src, DEST[dest], other))
        env.prove(engine is not None, "accepted")
        if engine is None:
            return
        got = engine.tree.find(".n.A.dst").max_size
        want = None
        for w in ws:
            if w == 64:
                continue
            lim = 2 ** w
            if want is None or lim < want:
                want = lim
        if want is None:
            env.prove(got is None, "64-bit references leave the resource unbounded")
        else:
            env.prove(got is not None, "the referenced resource is bounded")
            if got is not None:
                env.prove(got == want, "the bound is the smallest 2^width over all referencing fields")
                env.observe("max", got)
        env.prove(engine.tree.find(".n.A.free").max_size is None, "unreferenced resources are unbounded")
        smax = engine.tree.find(".n.A.src").max_size
        env.prove(smax == 128 if sub else smax is None, "bound of the other resource")
    return scenario


def foreign(kind):
    """A reference must start in a structure stored in the resource it decorates."""
    def scenario(env):
        w = env.int_in("w", 1, 64)
        good = env.boolean("good")
        typ = "T" if good else "U"
        res = {"vector": "vector< %s >" % typ, "instance": typ, "multivector": "multivector< 20, V, %s >" % typ}[kind]
        e = compile_schema("namespace n { struct U { f : u32 : 5; } struct V { v : u8; } struct T { f : u64 : %s; } archive A { "
                           "@explicit_reference( T.f, dst ) src : %s; dst : vector< U >; } }" % (env.literal(w), res))
        env.prove((e is not None) == bool(good), "references start in a structure of the decorated resource")
    return scenario


def build():
    hs = []
    B = "1..3 (thorough 4) references per resource, field widths symbolic in 1..64"
    for dest in ("vector", "multivector", "raw"):
        for n in tier((1, 2, 3), (1, 2, 3, 4)):
            for m in (False, True):
                hs.append(PyHarness("bound/%s/%d/%s" % (dest, n, m), refs(dest, n, m, m), GEN_FUNCS, B, validate=6, weight=n))
    for k in ("vector", "instance", "multivector"):
        hs.append(PyHarness("foreign/%s" % k, foreign(k), GEN_FUNCS, B, validate=4))
    return hs


if __name__ == "__main__":
    main("G04", build, ["decimal literals of the schema stand for symbolic values"],
         ["enforcement of the bound when an archive is opened (see the C++ check)"])
