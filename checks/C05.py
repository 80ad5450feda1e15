"""C05: C++ multivectors."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from cpplib import *

TYPES = {"A": (1, [("a", 0, 3, 0)]), "B": (2, [("x", 0, 9, 0), ("y", 9, 7, 1)]), "C": (9, [("p", 0, 64, 0), ("q", 64, 3, 1)])}
TEXT = {"A": "a : u8 : 3;", "B": "x : u16 : 9; y : i8 : 7;", "C": "p : u64 : 64; q : i16 : 3;"}
VECTORS = {"v33": (33, "AB"), "v4": (4, "BA"), "v8": (8, "CAB"), "v64": (64, "B"), "v17": (17, "BC")}
SCHEMA = "namespace n { %s archive Arc { %s } }" % (
    " ".join("struct %s { %s }" % i for i in TEXT.items()),
    " ".join("%s : multivector< %d, %s >;" % (k, w, ", ".join(l)) for k, (w, l) in VECTORS.items()))


def vec_code(name, width, letters):
    types = ", ".join("n::" + l for l in letters)
    s = '''
namespace %(v)s {
using Index = n::_builtin::multivector::IndexType%(w)d;
using Vec = flatdata::MultiVector<Index, %(t)s>;
using View = Vec::View;
struct S { std::unique_ptr<flatdata::MemoryResourceStorage> st; std::unique_ptr<Vec> v; std::unique_ptr<Vec::ListBuilder> l; View view; };
struct Log { U* out; U n;
  %(ops)s
};
API new_%(v)s(const char* key, const char* schema) { S* s = new S(); s->st = flatdata::MemoryResourceStorage::create();
  s->v.reset(new Vec(s->st->create_multi_vector<Index, %(t)s>(key, schema))); return (U)s; }
API grow_%(v)s(S* s) { s->l.reset(new Vec::ListBuilder(s->v->grow())); return 0; }
API close_%(v)s(S* s) { s->view = s->v->close(); return (bool)s->view; }
API view_%(v)s(P ib, P ie, P data) { return (U)new View(flatdata::ArrayView<Index>(ib, ie), data); }
API none_%(v)s() { return (U)new View(); }
API of_%(v)s(S* s) { return (U)&s->view; }
API open_%(v)s(S* s, const char* key, const char* schema) { auto r = s->st->read<View>(key, schema); return r ? (U)new View(*r) : 0; }
API ok_%(v)s(View* v) { return (bool)*v; }
API size_%(v)s(View* v) { return v->size(); }
API each_%(v)s(View* v, U i, U* out) { Log l{out, 0}; v->for_each(i, l); return l.n; }
API raw_%(v)s(S* s, const char* key, U* out) { auto r = s->st->read_resource(key); out[0] = (U)r.data(); out[1] = r.size_in_bytes(); return (bool)r; }
''' % dict(v=name, w=width, t=types, ops="\n".join("void operator()(n::%s x) { out[2*n] = %d; out[2*n+1] = (U)x.data(); n++; }" % (l, i)
                                                   for i, l in enumerate(letters)))
    for i, l in enumerate(letters):
        f = TYPES[l][1]
        s += '''
API add_%(v)s_%(l)s(S* s, %(args)s) { auto m = s->l->add<n::%(l)s>(); %(set)s return 0; }
API addm_%(v)s_%(l)s(S* s, %(args)s) { auto m = s->l->add<n::%(l)sMutator>(); %(set)s return 0; }
API it_%(v)s_%(l)s(View* v, U i, U* out) { U k = 0; for (auto it = v->iterator<n::%(l)s>(i); it.valid(); %(inc)s) out[k++] = (U)(*it).data(); return k; }
API only_%(v)s_%(l)s(View* v, U i, U* out) { U k = 0; v->for_each<n::%(l)s>(i, [&](n::%(l)s x) { out[k++] = (U)x.data(); }); return k; }
API over_%(v)s_%(l)s(View* v, U i, U* out) { U k = 0; v->for_each(i, flatdata::make_overload([&](n::%(l)s x) { out[k++] = (U)x.data(); })); return k; }
''' % dict(v=name, l=l, args=", ".join("U v%d" % k for k in range(len(f))), inc="it++" if i % 2 else "++it",
           set=" ".join("m.%s = (%s)v%d;" % (x[0], "int64_t" if x[3] else "uint64_t", k) for k, x in enumerate(f)))
    if len(letters) > 1:
        a, b = letters[0], letters[-1]
        s += '''
API pair_%(v)s(View* v, U i, U* out) { U k = 0; v->for_each(i, flatdata::make_overload(
  [&](n::%(a)s x) { out[2*k] = 0; out[2*k+1] = (U)x.data(); k++; }, [&](n::%(b)s x) { out[2*k] = %(j)d; out[2*k+1] = (U)x.data(); k++; })); return k; }
''' % dict(v=name, a=a, b=b, j=len(letters) - 1)
    return s + "}\n"


BODY = "#define protected public\n#include <flatdata/MemoryResourceStorage.h>\n" + \
    "\n".join(vec_code(k, w, l) for k, (w, l) in VECTORS.items())


def bits_of(fields, values, size):
    """cells of an element with the given field values"""
    total = 0
    for (n, off, w, s), v in zip(fields, values):
        total = total + ((v & ((1 << w) - 1)) << off)
    return [(total >> (8 * i)) & 255 for i in range(size)]


def same(env, a, b):
    return env.all(*[x == y for x, y in zip(a, b)])


def le(v, n):
    return [(v >> (8 * i)) & 255 for i in range(n)]


def u64(c, p, i):
    b = c.read(p + 8 * i, 8)
    v = 0
    for k in range(8):
        v = v + (b[k] << (8 * k))
    return v


def check_view(env, c, name, view, spec, base, what):
    """spec: per list, (type number, offset of the element in the data)"""
    letters = VECTORS[name][1]
    env.prove(c.call("ok_" + name, view) == 1, what + ": valid")
    env.prove(c.call("size_" + name, view) == len(spec), what + ": number of lists")
    for i, items in enumerate(spec):
        out = c.buf(16 * (len(items) + 2))
        env.prove(c.call("each_" + name, view, i, out) == len(items), what + ": list %d visits every element once" % i)
        for k, (t, off) in enumerate(items):
            env.prove(env.all(u64(c, out, 2 * k) == t, u64(c, out, 2 * k + 1) == base + off), what + ": list %d, element %d" % (i, k))
        for t, l in enumerate(letters):
            mine = [off for ty, off in items if ty == t]
            for fn, how in (("it_", "iterator"), ("only_", "selected types"), ("over_", "overload")):
                env.prove(c.call("%s%s_%s" % (fn, name, l), view, i, out) == len(mine), what + ": %s over %s of list %d" % (how, l, i))
                for k, off in enumerate(mine):
                    env.prove(u64(c, out, k) == base + off, what + ": %s over %s of list %d, element %d" % (how, l, i, k))
        if len(letters) > 1:
            mine = [(t, off) for t, off in items if t in (0, len(letters) - 1)]
            env.prove(c.call("pair_" + name, view, i, out) == len(mine), what + ": overload of two types, list %d" % i)
            for k, (t, off) in enumerate(mine):
                env.prove(env.all(u64(c, out, 2 * k) == t, u64(c, out, 2 * k + 1) == base + off), what + ": overload of two types, list %d" % i)


def writing(unit, name, steps, start=()):
    width, letters = VECTORS[name]
    isz = (width + 7) // 8

    def scenario(env):
        c = unit.session(env)
        key, schema = c.buf(b"res\0"), c.buf(b"some schema\0")
        s = c.call("new_" + name, key, schema)
        data, spec, index, values = [], [], [], []
        full = False
        for k in range(len(start) + steps):
            op = start[k] if k < len(start) else env.int_in("op%d" % k, 0, len(letters) + 1).__index__()
            if op == len(letters) + 1:
                break
            if op == len(letters):
                if len(data) >= 1 << width:
                    full = True
                    break
                c.call("grow_" + name, s)
                index.append(len(data))
                spec.append([])
                continue
            env.assume(len(spec) > 0)
            l = letters[op]
            size, fields = TYPES[l]
            vals = [env.int_in("k%d%s" % (k, f[0]), -(1 << (f[2] - 1)) if f[3] else 0, (1 << (f[2] - f[3])) - 1) for f in fields]
            c.call(("addm_" if k % 2 else "add_") + name + "_" + l, s, *vals)
            data += [op]
            spec[-1].append((op, len(data)))
            data += bits_of(fields, vals, size)
        if full or len(data) >= 1 << width:
            env.prove(throws(lambda: c.call(("grow_" if full else "close_") + name, s)) == 1, "data the index cannot address is refused")
            c.close()
            return
        index.append(len(data))
        env.prove(c.call("close_" + name, s) == 1, "closing succeeds")
        out = c.buf(16)
        for key2, want, text in ((b"res\0", data, b"some schema"), (b"res_index\0", [b for i in index for b in le(i, isz)], b"index(some schema)")):
            c.call("raw_" + name, s, c.buf(key2), out)
            p, n = u64(c, out, 0), u64(c, out, 1)
            framed = le(len(want), 8) + want + [0] * 8
            env.prove(n == len(framed), "stored size of %s" % key2[:-1].decode())
            env.prove(same(env, c.read(p, len(framed)), framed), "stored bytes of %s" % key2[:-1].decode())
            if key2 == b"res\0":
                base = p + 8
            c.call("raw_" + name, s, c.buf(key2[:-1] + b".schema\0"), out)
            p, n = u64(c, out, 0), u64(c, out, 1)
            env.prove(n == len(text), "stored schema of %s" % key2[:-1].decode())
            env.prove(same(env, c.read(p, len(text)), list(text)), "stored schema of %s" % key2[:-1].decode())
        env.observe("data", c.read(base, len(data)) if data else 0)
        check_view(env, c, name, c.call("of_" + name, s), spec, base, "closed")
        v = c.call("open_" + name, s, key, schema)
        env.prove(v != 0, "the resource opens")
        check_view(env, c, name, v, spec, base, "reopened")
        env.prove(c.call("open_" + name, s, key, c.buf(b"same schema\0")) == 0, "another schema does not open")
        env.prove(c.call("close_" + name, s) == 0, "closing a second time fails")
        check_view(env, c, name, v, spec, base, "closed twice")
        c.close()
    return scenario


def reading(unit, name, total, lists):
    """any data bytes and ascending index entries; tags valid, elements end with their list"""
    width, letters = VECTORS[name]
    isz = (width + 7) // 8

    def scenario(env):
        c = unit.session(env)
        data = env.bytes("d", total)
        offs = [env.int_in("o%d" % i, 0, min(total, (1 << width) - 1)) for i in range(lists + 1)]
        junk = env.int_in("junk", 0, (1 << (8 * isz - width)) - 1)
        spec = []
        bad = False
        for b in range(lists):
            env.assume(offs[b] <= offs[b + 1])
            pos, end = offs[b].__index__(), offs[b + 1].__index__()
            items = []
            while pos < end:
                if not data[pos] < len(letters):
                    bad = True
                    break
                ty = data[pos].__index__()
                size = TYPES[letters[ty]][0]
                env.assume(pos + 1 + size <= end)
                items.append((ty, pos + 1))
                pos += 1 + size
            if bad:
                break
            spec.append(items)
        idx = []
        for o in offs:
            v = o | (junk << width)
            idx += [(v >> (8 * i)) & 255 for i in range(isz)]
        from pylib import mk_bytes
        ip = c.buf(list(mk_bytes(env, idx)) + [0] * 8)
        dp = c.buf(list(data) + [0] * 8)
        v = c.call("view_" + name, ip, ip + len(idx), dp)
        if bad:
            out = c.buf(16 * (total + 2))
            env.prove(throws(lambda: c.call("each_" + name, v, len(spec), out)) == 1, "unknown type numbers are refused")
            c.close()
            return
        env.observe("size", c.call("size_" + name, v))
        check_view(env, c, name, v, spec, dp, "view")
        c.close()
    return scenario


def nothing(unit, name):
    def scenario(env):
        c = unit.session(env)
        env.prove(c.call("ok_" + name, c.call("none_" + name)) == 0, "a view without data is invalid")
        env.prove(c.call("size_" + name, c.call("none_" + name)) == 0, "a view without data is empty")
        env.observe("x", env.int_in("x", 0, 1))
        c.close()
    return scenario


def build():
    u = cpp_unit("C05", "multi", SCHEMA, BODY, sources=["ResourceStorage.cpp"])
    f = cpp_unit("C05", "flush", SCHEMA, BODY, sources=["ResourceStorage.cpp"], buffer_limit=14)
    build_units([u, f])
    hs = []
    B = "index widths 4, 8, 17, 33, 64; 1 to 3 types of 1, 2, 9 bytes; "
    for name, steps in (("v33", tier(5, 7)), ("v4", tier(6, 8)), ("v8", tier(4, 5)), ("v64", tier(5, 8)), ("v17", tier(4, 6))):
        W = B + "every sequence of up to %d operations, all field values" % steps
        hs.append(PyHarness("write/%s" % name, writing(u, name, steps), [], W, validate=6, weight=10))
        hs.append(PyHarness("flush/%s" % name, writing(f, name, steps), [], W + "; buffers flushed beyond 14 bytes", validate=6, weight=10))
        hs.append(PyHarness("none/%s" % name, nothing(u, name), [], B, validate=1))
    hs.append(PyHarness("overflow/v4", writing(u, "v4", tier(4, 6), (2, 0, 0, 0, 0)), [],
                        B + "data beyond the range of the index", validate=6, weight=10))
    hs.append(PyHarness("overflow/flush/v4", writing(f, "v4", tier(4, 6), (2, 0, 0, 0, 2, 0)), [],
                        B + "data beyond the range of the index", validate=6, weight=10))
    for name, total, lists in (("v33", tier(6, 10), 2), ("v8", tier(10, 13), 1), ("v8", 6, 2), ("v64", tier(6, 9), 3), ("v4", tier(7, 12), 2)):
        hs.append(PyHarness("read/%s/%d" % (name, total), reading(u, name, total, lists), [],
                            B + "every content of up to %d data bytes, every index of %d lists" % (total, lists), validate=6, weight=8))
    return hs


if __name__ == "__main__":
    main("C05", build,
         ["elements end at the end of their list", "clang 18 -O1 IR of the headers and of the generated code is the code under test; "
          "string streams of libstdc++ are modelled; sanitizer builds replay"],
         ["adding to a list after starting the next one", "streams which fail", "file-backed storage"])
