"""C03: C++ structures as values: equality, hash, copies, conversions, standalone structures."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from cpplib import *

STRUCTS = {"A": ("a : u8 : 3;", 1), "B": ("a : u16 : 9; b : i8 : 7;", 2), "C": ("x : i32 : 17; y : bool : 1; z : u8 : 5;", 3),
           "D": ("p : u64 : 64; q : i16 : 3;", 9), "E": ("a : u32; b : u32; c : i64 : 40; d : u8 : 1;", 14)}
FIELDS = {"A": [("a", 0, 3, 0)], "B": [("a", 0, 9, 0), ("b", 9, 7, 1)], "C": [("x", 0, 17, 1), ("y", 17, 1, 0), ("z", 18, 5, 0)],
          "D": [("p", 0, 64, 0), ("q", 64, 3, 1)], "E": [("a", 0, 32, 0), ("b", 32, 32, 0), ("c", 64, 40, 1), ("d", 104, 1, 0)]}

BODY = "\n".join('''
API eq_%(n)s(P a, P b) { return n::%(n)s{a} == n::%(n)s{b}; }
API ne_%(n)s(P a, P b) { return n::%(n)s{a} != n::%(n)s{b}; }
API eqm_%(n)s(M a, M b) { return n::%(n)sMutator{a} == n::%(n)sMutator{b}; }
API hash_%(n)s(P a) { return flatdata::Hash{}(n::%(n)s{a}); }
API hashm_%(n)s(M a) { return flatdata::Hash{}(n::%(n)sMutator{a}); }
API copy_%(n)s(M d, P s) { flatdata::copy_struct(n::%(n)sMutator{d}, n::%(n)s{s}); return 0; }
API copym_%(n)s(M d, M s) { flatdata::copy_struct(n::%(n)sMutator{d}, n::%(n)sMutator{s}); return 0; }
API conv_%(n)s(M a) { n::%(n)s r = n::%(n)sMutator{a}; return (U)r.data(); }
API less_%(n)s(P a, P b) { return n::%(n)s{a} < n::%(n)s{b}; }
API fresh_%(n)s() { return (U)new flatdata::Struct<n::%(n)s>(); }
API owned_%(n)s(flatdata::Struct<n::%(n)s>* s) { const auto& c = *s; return (U)(*c).data(); }
API ownedm_%(n)s(flatdata::Struct<n::%(n)s>* s) { return (U)(**s).data(); }
API dup_%(n)s(flatdata::Struct<n::%(n)s>* s) { return (U)new flatdata::Struct<n::%(n)s>(*s); }
API null_%(n)s() { n::%(n)s x; return (bool)x; }
API valid_%(n)s(P a) { n::%(n)s x{a}; return (bool)x; }
''' % dict(n=n) for n in STRUCTS)


def same(env, a, b):
    return env.all(*[x == y for x, y in zip(a, b)])


def spec(b, off, w, s):
    return spec_read(b, off, w, s)


def values(unit, n, size):
    def scenario(env):
        c = unit.session(env)
        a, b = env.bytes("a", size + 8), env.bytes("b", size + 8)
        p, q = c.buf(a), c.buf(b)
        eq = c.call("eq_" + n, p, q)
        env.observe("eq", eq)
        env.prove((eq == 1) == same(env, a[:size], b[:size]), "%s equal exactly if all bytes are equal" % n)
        env.prove(c.call("ne_" + n, p, q) == 1 - eq, "%s inequality is the negation of equality" % n)
        env.prove(c.call("eqm_" + n, p, q) == eq, "%s mutators compare like accessors" % n)
        env.prove(c.call("valid_" + n, p) == 1, "a structure with data is valid")
        env.prove(c.call("null_" + n) == 0, "a structure without data is not")
        env.prove(c.call("conv_" + n, p) == p, "accessor of a mutator refers to the same data")
        c.close()
    return scenario


def hashes(unit, n, size):
    def scenario(env):
        c = unit.session(env)
        a, t = env.bytes("a", size), env.bytes("tail", 16)
        p, q = c.buf(a + t[:8]), c.buf(a + t[8:])
        h = c.call("hash_" + n, p)
        env.observe("hash", h)
        env.prove(h == c.call("hash_" + n, q), "%s hash depends on the bytes of the structure only" % n)
        env.prove(h == c.call("hashm_" + n, q), "%s hash of a mutator equals that of the accessor" % n)
        c.close()
    return scenario


def copies(unit, n, size, fn):
    def scenario(env):
        c = unit.session(env)
        s, d = env.bytes("s", size + 8), env.bytes("d", size + 16)
        p, q = c.buf(s), c.buf(d)
        c.call(fn + n, q + 8, p)
        after = c.read(q, size + 16)
        env.observe("after", after)
        env.prove(same(env, after, list(d[:8]) + list(s[:size]) + list(d[8 + size:])),
                  "copying %s transfers exactly its bytes" % n)
        env.prove(same(env, c.read(p, size + 8), s), "copying %s leaves the source alone" % n)
        c.close()
    return scenario


def owned(unit, n, size):
    def scenario(env):
        c = unit.session(env)
        s = c.call("fresh_" + n)
        d = c.call("owned_" + n, s)
        env.prove(env.all(*[x == 0 for x in c.read(d, size + 8)]), "a new standalone %s is zero, padding included" % n)
        env.prove(c.call("ownedm_" + n, s) == d, "accessor and mutator of a standalone %s share the data" % n)
        v = env.bytes("v", size + 8)
        src = c.buf(v)
        c.call("copy_" + n, d, src)
        t = c.call("dup_" + n, s)
        e = c.call("owned_" + n, t)
        env.prove(same(env, c.read(e, size), v[:size]), "a copy of a standalone %s has the same bytes" % n)
        w = env.bytes("w", size + 8)
        c.call("copy_" + n, e, c.buf(w))
        env.prove(same(env, c.read(d, size), v[:size]), "changing the copy of a standalone %s leaves the original" % n)
        env.prove(same(env, c.read(e, size), w[:size]), "the copy of a standalone %s takes the change" % n)
        c.close()
    return scenario


def order(unit, n, size):
    """strict weak order: irreflexive, asymmetric; equal field values are not ordered"""
    def scenario(env):
        c = unit.session(env)
        a, b = env.bytes("a", size + 8), env.bytes("b", size + 8)
        p, q = c.buf(a), c.buf(b)
        l, g = c.call("less_" + n, p, q), c.call("less_" + n, q, p)
        env.observe("less", l)
        env.prove(env.all(l + g <= 1), "%s: a < b and b < a exclude each other" % n)
        env.prove(c.call("less_" + n, p, p) == 0, "%s: nothing precedes itself" % n)
        if len(FIELDS[n]) == 1:
            x, y = [spec(m, *FIELDS[n][0][1:]) for m in (a, b)]
            env.prove((l == 1) == (x < y), "%s: order of a single field" % n)
        c.close()
    return scenario


def weak(unit, n, size):
    """incomparability is transitive"""
    def scenario(env):
        c = unit.session(env)
        m = [env.bytes(k, size + 8) for k in "abc"]
        p = [c.buf(x) for x in m]
        le = lambda i, j: c.call("less_" + n, p[i], p[j])
        inc = lambda i, j: env.all(le(i, j) == 0, le(j, i) == 0)
        env.prove(env.all(inc(0, 1), inc(1, 2)) <= inc(0, 2), "%s: elements equivalent to the same element are equivalent" % n)
        c.close()
    return scenario


def build():
    u = cpp_unit("C03", "values", "namespace n { %s }" % " ".join("struct %s { %s }" % (k, v[0]) for k, v in STRUCTS.items()), BODY)
    build_units([u])
    B = "structures of 1..14 bytes with and without unused bits; all contents symbolic"
    hs = []
    for n, (_, size) in STRUCTS.items():
        for nm, f in (("values", values), ("hash", hashes), ("owned", owned), ("order", order)):
            hs.append(PyHarness("%s/%s" % (nm, n), f(u, n, size), [], B, validate=3))
        for fn in ("copy_", "copym_"):
            hs.append(PyHarness("%s/%s" % (fn, n), copies(u, n, size, fn), [], B, validate=3))
        hs.append(PyHarness("weak/%s" % n, weak(u, n, size), [], B, validate=2))
    return hs


if __name__ == "__main__":
    main("C03", build,
         ["clang 18 -O1 IR of the headers and of the generated code is the code under test; sanitizer builds replay"],
         ["quality of the hash function", "text output (to_string, describe)"])
