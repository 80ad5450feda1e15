"""C04: C++ array views, iterators and ranges."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from cpplib import *

SCHEMA = """namespace n {
 struct A { a : u8; }
 struct B { a : u32 : 21; b : i16 : 11; }
 struct C { k : u8 : 3; l : u64 : 50; }
 struct R { v : u16 : 7; @range( r ) first : u32 : 22; }
 struct Q { @range( q ) at : u64 : 40; w : bool : 1; }
}"""
# name: (size, overlapping, fields(name, offset, width, signed), range field)
S = {"A": (1, 0, [("a", 0, 8, 0)], None), "B": (4, 0, [("a", 0, 21, 0), ("b", 21, 11, 1)], None),
     "C": (7, 0, [("k", 0, 3, 0), ("l", 3, 50, 0)], None),
     "R": (4, 1, [("v", 0, 7, 0), ("first", 7, 22, 0)], ("r", 7, 22)),
     "Q": (6, 1, [("at", 0, 40, 0), ("w", 40, 1, 0)], ("q", 0, 40))}

BODY = "typedef std::pair<uint64_t, uint64_t> Pair;\n" + "\n".join('''
typedef flatdata::ArrayView<n::%(n)s> V%(n)s;
typedef V%(n)s::const_iterator I%(n)s;
API view_%(n)s(P a, P b) { return (U)new V%(n)s(a, b); }
API none_%(n)s() { return (U)new V%(n)s(); }
API size_%(n)s(const V%(n)s* v) { return v->size(); }
API bytes_%(n)s(const V%(n)s* v) { return v->size_in_bytes(); }
API empty_%(n)s(const V%(n)s* v) { return v->empty(); }
API ok_%(n)s(const V%(n)s* v) { return (bool)*v; }
API data_%(n)s(const V%(n)s* v) { return (U)v->data(); }
API at_%(n)s(const V%(n)s* v, U i) { return (U)(*v)[i].data(); }
API front_%(n)s(const V%(n)s* v) { return (U)v->front().data(); }
API back_%(n)s(const V%(n)s* v) { return (U)v->back().data(); }
API slice_%(n)s(const V%(n)s* v, U p, U l) { return (U)new V%(n)s(v->slice(p, l)); }
API range_%(n)s(const V%(n)s* v, U p, U e) { return (U)new V%(n)s(v->slice(std::pair<size_t, size_t>(p, e))); }
API before_%(n)s(const V%(n)s* v, U p) { return (U)new V%(n)s(v->slice_before(p)); }
API after_%(n)s(const V%(n)s* v, U p) { return (U)new V%(n)s(v->slice_after(p)); }
API skip_%(n)s(const V%(n)s* v, U p) { return (U)new V%(n)s(v->skip(p)); }
API skiplast_%(n)s(const V%(n)s* v, U p) { return (U)new V%(n)s(v->skip_last(p)); }
API begin_%(n)s(const V%(n)s* v) { return (U)new I%(n)s(v->begin()); }
API end_%(n)s(const V%(n)s* v) { return (U)new I%(n)s(v->end()); }
API iter_%(n)s(const V%(n)s* v, U* out) { U k = 0; for (auto x : *v) { out[k++] = (U)x.data(); } return k; }
API dist_%(n)s(const I%(n)s* a, const I%(n)s* b) { return (U)(*b - *a); }
API cmp_%(n)s(const I%(n)s* a, const I%(n)s* b) { return (*a == *b) | (*a != *b) << 1 | (*a < *b) << 2 | (*a <= *b) << 3 | (*a > *b) << 4 | (*a >= *b) << 5; }
API deref_%(n)s(const I%(n)s* a) { return (U)(**a).data(); }
API arrow_%(n)s(const I%(n)s* a) { return (U)(*a)->data(); }
API sub_%(n)s(const I%(n)s* a, I k) { return (U)(*a)[k].data(); }
API plus_%(n)s(const I%(n)s* a, I k) { return (U)new I%(n)s(*a + k); }
API minus_%(n)s(const I%(n)s* a, I k) { return (U)new I%(n)s(*a - k); }
API pluseq_%(n)s(const I%(n)s* a, I k) { auto b = new I%(n)s(*a); auto& r = (*b += k); return &r == b ? (U)b : 0; }
API minuseq_%(n)s(const I%(n)s* a, I k) { auto b = new I%(n)s(*a); auto& r = (*b -= k); return &r == b ? (U)b : 0; }
API preinc_%(n)s(const I%(n)s* a) { auto b = new I%(n)s(*a); auto& r = ++*b; return &r == b ? (U)b : 0; }
API predec_%(n)s(const I%(n)s* a) { auto b = new I%(n)s(*a); auto& r = --*b; return &r == b ? (U)b : 0; }
API postinc_%(n)s(I%(n)s* a) { return (U)new I%(n)s((*a)++); }
API postdec_%(n)s(I%(n)s* a) { return (U)new I%(n)s((*a)--); }
''' % dict(n=n) for n in S) + "\n".join('''
API fld_%s_%s(const flatdata::ArrayView<n::%s>* v, U i) { %s x = (*v)[i].%s; return (U)(I)x; }
''' % (n, f[0], n, "int64_t" if f[3] else "uint64_t", f[0]) for n in S for f in S[n][2]) + "\n".join('''
API rng_%(n)s(const flatdata::ArrayView<n::%(n)s>* v, U i, U* out) { Pair p = (*v)[i].%(r)s; out[0] = p.first; out[1] = p.second; return 0; }
API srng_%(n)s_%(t)s(const flatdata::ArrayView<n::%(n)s>* v, U i, const flatdata::ArrayView<n::%(t)s>* w) {
  std::pair<size_t, size_t> p = (*v)[i].%(r)s; return (U)new flatdata::ArrayView<n::%(t)s>(w->slice(p)); }
''' % dict(n=n, r=S[n][3][0], t="B") for n in S if S[n][3])


def u64(c, p, i):
    b = c.read(p + 8 * i, 8)
    v = 0
    for k in range(8):
        v = v + (b[k] << (8 * k))
    return v


def contents(env, c, n, v, p, mem, first, count, what):
    """view v holds exactly the items first..first+count of the memory at p"""
    size = S[n][0]
    env.prove(c.call("size_" + n, v) == count, "%s: number of items" % what)
    env.prove(c.call("empty_" + n, v) == int(count == 0), "%s: emptiness" % what)
    env.prove(c.call("data_" + n, v) == p + size * first, "%s: start" % what)
    for i in range(count):
        env.prove(c.call("at_" + n, v, i) == p + size * (first + i), "%s: item %d" % (what, i))
        for f, off, w, s in S[n][2]:
            got = c.call("fld_%s_%s" % (n, f), v, i, signed=bool(s))
            env.observe(f, got)
            env.prove(got == spec_read(mem, 8 * size * (first + i) + off, w, s), "%s: %s of item %d" % (what, f, i))
    out = c.buf(8 * (count + 1))
    env.prove(c.call("iter_" + n, v, out) == count, "%s: iteration yields every item once" % what)
    for i in range(count):
        env.prove(u64(c, out, i) == p + size * (first + i), "%s: iteration in order" % what)
    if count:
        env.prove(c.call("front_" + n, v) == p + size * first, "%s: front" % what)
        env.prove(c.call("back_" + n, v) == p + size * (first + count - 1), "%s: back" % what)
        env.prove(c.call("bytes_" + n, v) == size * (count + S[n][1]), "%s: size in bytes" % what)
    else:
        env.prove(c.call("bytes_" + n, v) == 0, "%s: size in bytes" % what)


def views(unit, n, limit):
    size, over, fields, rng = S[n]

    def scenario(env):
        c = unit.session(env)
        k = env.int_in("items", 0, limit)
        k = fork(env, k, 0, limit)
        mem = env.bytes("mem", size * k + 8)
        p = c.buf(mem)
        v = c.call("view_" + n, p, p + size * k)
        count = max(k - over, 0)
        env.prove(c.call("ok_" + n, v) == 1, "a view of data is valid")
        contents(env, c, n, v, p, mem, 0, count, "view")
        if rng:
            out = c.buf(16)
            for i in range(count):
                c.call("rng_" + n, v, i, out)
                lo, hi = u64(c, out, 0), u64(c, out, 1)
                env.observe("range", lo)
                env.prove(lo == spec_read(mem, 8 * size * i + rng[1], rng[2], 0), "range of item %d starts at its own value" % i)
                env.prove(hi == spec_read(mem, 8 * size * (i + 1) + rng[1], rng[2], 0), "range of item %d ends at the next value" % i)
        c.close()
    return scenario


def fork(env, v, lo, hi):
    """concrete value of a small symbolic integer, one path per value"""
    for i in range(lo, hi):
        if v == i:
            return i
    return hi


def slices(unit, n, limit):
    size, over, fields, rng = S[n]

    def scenario(env):
        c = unit.session(env)
        k = limit
        count = k - over
        mem = env.bytes("mem", size * k + 8)
        p = c.buf(mem)
        v = c.call("view_" + n, p, p + size * k)
        kind = fork(env, env.int_in("kind", 0, 5), 0, 5)
        a = fork(env, env.int_in("a", 0, count), 0, count)
        b = fork(env, env.int_in("b", a, count), a, count) if kind in (0, 1) else count
        if kind == 0:
            w, lo, hi = c.call("slice_" + n, v, a, b - a), a, b
        elif kind == 1:
            w, lo, hi = c.call("range_" + n, v, a, b), a, b
        elif kind == 2:
            w, lo, hi = c.call("before_" + n, v, a), 0, a
        elif kind == 3:
            w, lo, hi = c.call("after_" + n, v, a), a, count
        elif kind == 4:
            w, lo, hi = c.call("skip_" + n, v, a), a, count
        else:
            w, lo, hi = c.call("skiplast_" + n, v, a), 0, count - a
        contents(env, c, n, w, p, mem, lo, hi - lo, "slice")
        # slices of slices
        d = fork(env, env.int_in("d", 0, hi - lo), 0, hi - lo)
        x = c.call("skip_" + n, w, d)
        env.prove(c.call("size_" + n, x) == hi - lo - d, "slice of a slice: number of items")
        env.prove(c.call("data_" + n, x) == p + size * (lo + d), "slice of a slice: start")
        y = c.call("skiplast_" + n, w, d)
        env.prove(c.call("size_" + n, y) == hi - lo - d, "slice of a slice: number of items")
        env.prove(c.call("data_" + n, y) == p + size * lo, "slice of a slice: start")
        c.close()
    return scenario


def far(n):
    """exponent of the largest position: multiplications by sizes other than powers of two are bounded harder"""
    return 40 if S[n][0] in (1, 4) else tier(10, 14)


def big(unit, n):
    """positions of any magnitude: only addresses are computed"""
    size, over, fields, rng = S[n]

    def scenario(env):
        c = unit.session(env)
        k = env.int_in("items", 1 + over, 2 ** far(n))
        p = 2 ** 45
        v = c.call("view_" + n, p, p + k * size)
        env.prove(c.call("size_" + n, v) == k - over, "size of a large view")
        env.prove(c.call("bytes_" + n, v) == k * size, "bytes of a large view")
        i = env.int_in("i", 0, 2 ** far(n))
        env.assume(i < k - over)
        env.prove(c.call("at_" + n, v, i) == p + i * size, "address of any item")
        l = env.int_in("l", 0, 2 ** far(n))
        env.assume(i + l <= k - over)
        for w in (c.call("slice_" + n, v, i, l), c.call("range_" + n, v, i, i + l)):
            env.prove(c.call("size_" + n, w) == l, "length of any slice")
            env.prove(c.call("data_" + n, w) == p + i * size, "start of any slice")
        w = c.call("after_" + n, v, i)
        env.prove(env.all(c.call("size_" + n, w) == k - over - i, c.call("data_" + n, w) == p + i * size), "any tail")
        w = c.call("skiplast_" + n, v, l)
        env.prove(env.all(c.call("size_" + n, w) == k - over - l, c.call("data_" + n, w) == p), "any head")
        b, e = c.call("begin_" + n, v), c.call("end_" + n, v)
        env.prove(c.call("dist_" + n, b, e, signed=True) == k - over, "distance of any begin and end")
        c.close()
    return scenario


def iterators(unit, n):
    size = S[n][0]

    def scenario(env):
        c = unit.session(env)
        p = 2 ** 45
        k = 2 ** (far(n) + 1)
        v = c.call("view_" + n, p, p + size * (k + S[n][1]))
        b, e = c.call("begin_" + n, v), c.call("end_" + n, v)
        i = env.int_in("i", 0, 2 ** far(n))
        j = env.int_in("j", -2 ** (far(n) - 1), 2 ** (far(n) - 1))
        env.assume(i + j >= 1)
        env.assume(i >= 1)
        x = c.call("plus_" + n, b, i)
        pos = lambda it: c.call("deref_" + n, it)
        env.prove(pos(b) == p, "begin is the first item")
        env.prove(pos(e) == p + size * k, "end is one past the last item")
        env.prove(pos(x) == p + size * i, "begin + i is item i")
        env.prove(c.call("arrow_" + n, x) == p + size * i, "operator-> is item i")
        for f, sign in (("plus_", 1), ("pluseq_", 1)):
            y = c.call(f + n, x, j)
            env.prove(pos(y) == p + size * (i + j), "%s: moves by j" % f)
        env.assume(i - j >= 1)
        for f in ("minus_", "minuseq_"):
            y = c.call(f + n, x, j)
            env.prove(pos(y) == p + size * (i - j), "%s: moves back by j" % f)
        env.prove(c.call("sub_" + n, x, j) == p + size * (i + j), "it[j] is the item j further")
        env.prove(pos(c.call("preinc_" + n, x)) == p + size * (i + 1), "pre-increment")
        env.prove(pos(c.call("predec_" + n, x)) == p + size * (i - 1), "pre-decrement")
        y = c.call("plus_" + n, x, j)
        env.prove(c.call("dist_" + n, x, y, signed=True) == j, "difference of iterators")
        m = c.call("cmp_" + n, x, y)
        bit = lambda t: (m >> t) & 1
        env.prove(env.all((bit(0) == 1) == (j == 0), (bit(1) == 1) == (j != 0), (bit(2) == 1) == (j > 0),
                          (bit(3) == 1) == (j >= 0), (bit(4) == 1) == (j < 0), (bit(5) == 1) == (j <= 0)), "comparison of iterators")
        old = c.call("postinc_" + n, x)
        env.prove(env.all(pos(old) == p + size * i, pos(x) == p + size * (i + 1)), "post-increment")
        old = c.call("postdec_" + n, x)
        env.prove(env.all(pos(old) == p + size * (i + 1), pos(x) == p + size * i), "post-decrement")
        c.close()
    return scenario


def nothing(unit, n):
    def scenario(env):
        c = unit.session(env)
        v = c.call("none_" + n)
        env.prove(c.call("ok_" + n, v) == 0, "a view without data is invalid")
        env.prove(c.call("size_" + n, v) == 0, "a view without data is empty")
        env.prove(c.call("bytes_" + n, v) == 0, "a view without data has no bytes")
        env.observe("x", env.int_in("x", 0, 1))
        c.close()
    return scenario


def build():
    u = cpp_unit("C04", "views", SCHEMA, BODY)
    build_units([u])
    hs = []
    for n in S:
        lim = tier(4, 7)
        B = "structures of 1, 4, 6, 7 bytes, two of them with ranges; "
        hs.append(PyHarness("view/%s" % n, views(u, n, lim), [], B + "views of 0..%d items with symbolic content" % lim, validate=8))
        lim = tier(4, 6)
        hs.append(PyHarness("slice/%s" % n, slices(u, n, lim), [], B + "every slice of a view of %d items, symbolic content" % lim,
                            validate=6, weight=4))
        hs.append(PyHarness("big/%s" % n, big(u, n), [], B + "views of up to 2^%d items: positions and sizes symbolic" % far(n), validate=3))
        hs.append(PyHarness("iterator/%s" % n, iterators(u, n), [], B + "iterator positions up to 2^%d, offsets +-2^%d" % (far(n), far(n) - 1), validate=3))
        hs.append(PyHarness("none/%s" % n, nothing(u, n), [], B + "views without data"))
    return hs


if __name__ == "__main__":
    main("C04", build,
         ["indices, slice bounds and iterators stay within the view they are applied to",
          "clang 18 -O1 IR of the headers and of the generated code is the code under test; sanitizer builds replay"],
         ["access outside of a view (unchecked by design)", "text output (describe)"])
