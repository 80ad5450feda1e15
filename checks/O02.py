"""O02: Go containers."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from golib import *

W = 64
SCHEMA = """namespace n {
struct S { a : u8 : 3; b : i32 : 17; c : u8 : 4; }
struct T { x : u64 : 64; y : i8 : 5; }
struct U { z : u8 : 8; }
archive A { v : vector< S >; w : vector< U >; i : T; r : raw_data; @optional o : vector< T >; }
%s
}"""
FIELDS = {"S": [("a", 0, 3, False), ("b", 3, 17, True), ("c", 20, 4, False)], "T": [("x", 0, 64, False), ("y", 64, 5, True)],
          "U": [("z", 0, 8, False)]}
SIZE = {"S": 3, "T": 9, "U": 1}
MV = {"M8": (8, "S T"), "M20": (20, "U S T"), "M33": (33, "T S"), "M64": (64, "S U")}


def go_item(s, v):
    return ", ".join("int64(%s.Get%s())" % (v, f.upper()) for f, *_ in FIELDS[s])


def body():
    out = ['''
type D map[string]flatdata.MemoryDescriptor
type X map[string]string
func open(names []string, b [][]byte) *gen.AArchive {
	d, x := D{}, X{}
	for i, n := range names { d[n] = mem(b[2*i]); x[n] = string(b[2*i+1]) }
	r, err := gen.OpenAArchive(&flatdata.InMemoryResourceStorage{Descriptors: d, Schemas: x})
	if err != nil { panic(err) }
	return r
}
func flag(x bool) int64 { if x { return 1 }; return 0 }
func Inst(b [][]byte, a []int64) []int64 { i := open([]string{"i"}, b).IInstance; s := i.Get(); return []int64{int64(i.GetSize()), int64(i.GetSizeInBytes()), %s} }
func Raw(b [][]byte, a []int64) []int64 {
	r := open([]string{"r"}, b).RRawData
	out := []int64{int64(r.GetSize()), int64(r.GetSizeInBytes())}
	for _, x := range r.GetValue() { out = append(out, int64(x)) }
	return out
}
func Flags(b [][]byte, a []int64) []int64 {
	names, bufs := []string{}, [][]byte{}
	for i, n := range []string{"v", "w", "i", "r", "o"} { if a[i] != 0 { names = append(names, n); bufs = append(bufs, b[2*i], b[2*i+1]) } }
	v := open(names, bufs)
	return []int64{flag(v.VVector.IsOpen), flag(v.WVector.IsOpen), flag(v.IInstance.IsOpen), flag(v.RRawData.IsOpen), flag(v.OVector.IsOpen),
		flag(v.VVector.IsOptional), flag(v.OVector.IsOptional), int64(v.GetSizeInBytes())}
}''' % go_item("T", "s")]
    for n, s in (("v", "S"), ("w", "U"), ("o", "T")):
        out.append('func Size_%s(b [][]byte, a []int64) []int64 { v := open([]string{"%s"}, b).%sVector; return []int64{int64(v.GetSize()), int64(v.GetSizeInBytes())} }'
                   % (n, n, n.upper()))
        out.append('func Get_%s(b [][]byte, a []int64) []int64 { s := open([]string{"%s"}, b).%sVector.Get(int(a[0])); return []int64{%s} }'
                   % (n, n, n.upper(), go_item(s, "s")))
        out.append('func Slice_%s(b [][]byte, a []int64) []int64 {\n\tout := []int64{}\n\tfor _, s := range open([]string{"%s"}, b).%sVector.GetSlice(int(a[0]), int(a[1]), int(a[2])) '
                   '{ out = append(out, %s) }\n\treturn out\n}' % (n, n, n.upper(), go_item(s, "s")))
    for m, (_, types) in MV.items():
        cases = "".join("\t\tcase *gen.%s: out = append(out, %d, %s)\n" % (t, k, go_item(t, "s")) for k, t in enumerate(types.split()))
        out.append('''func openM_%(m)s(b [][]byte) *gen.%(m)sMMultivector {
	r, err := gen.Open%(m)sArchive(&flatdata.InMemoryResourceStorage{Descriptors: D{"m": mem(b[0]), "m_index": mem(b[1])}, Schemas: X{"m": string(b[2]), "m_index": string(b[3])}})
	if err != nil { panic(err) }
	return r.MMultivector
}
func MvSize_%(m)s(b [][]byte, a []int64) []int64 { m := openM_%(m)s(b); return []int64{int64(m.GetSize()), int64(m.GetSizeInBytes())} }
func Mv_%(m)s(b [][]byte, a []int64) []int64 {
	out := []int64{}
	for _, x := range openM_%(m)s(b).Get(int(a[0])) {
		switch s := x.(type) {
%(cases)s		default: out = append(out, 99)
		}
	}
	return out
}''' % dict(m=m, cases=cases))
    return "\n".join(out)


def item(s, b):
    return [spec_read(b, o, w, g) & (2 ** W - 1) for _, o, w, g in FIELDS[s]]


def eq(env, got, want, what):
    env.prove(len(got) == len(want), what + ": number of values")
    env.prove(env.all(*[g == w for g, w in zip(got, want)]), what)


def vector(unit, name, s, n):
    def scenario(env):
        mem = list(env.bytes("mem", n * SIZE[s]))
        bufs = [framed(mem), unit.text["A." + name]]
        eq(env, unit.call(env, "Size_" + name, bufs), [n, 16 + len(mem)], "size")
        items = [item(s, mem[i * SIZE[s]:(i + 1) * SIZE[s]]) for i in range(n)]
        for i in range(n):
            got = unit.call(env, "Get_" + name, bufs, [i])
            env.observe("item%d" % i, got)
            eq(env, got, items[i], "item %d" % i)
    return scenario


def slices(unit, name, s, n):
    def scenario(env):
        mem = list(env.bytes("mem", n * SIZE[s]))
        bufs = [framed(mem), unit.text["A." + name]]
        a, b, c = env.int_in("start", 0, n - 1), env.int_in("end", 0, n - 1), env.int_in("step", 1, n + 1)
        got = unit.call(env, "Slice_" + name, bufs, [a, b, c])
        want = []
        for i in range(a.__index__(), b.__index__() + 1, c.__index__()):
            want += item(s, mem[i * SIZE[s]:(i + 1) * SIZE[s]])
        eq(env, got, want, "slice with inclusive end")
    return scenario


def size_field(unit, name, s, n):
    """the recorded size decides, whatever follows the payload"""
    def scenario(env):
        k = env.int_in("items", 0, n)
        z = k * SIZE[s]
        mem = [(z >> (8 * i)) & 255 for i in range(8)] + list(env.bytes("mem", n * SIZE[s] + 8))
        got = unit.call(env, "Size_" + name, [mem, unit.text["A." + name]])
        env.prove(got[0] == k, "number of items")
    return scenario


def instance(unit):
    def scenario(env):
        mem = list(env.bytes("mem", SIZE["T"]))
        got = unit.call(env, "Inst", [framed(mem), unit.text["A.i"]])
        eq(env, got, [1, 16 + SIZE["T"]] + item("T", mem), "instance")
    return scenario


def raw(unit, n):
    def scenario(env):
        mem = list(env.bytes("mem", n))
        eq(env, unit.call(env, "Raw", [framed(mem), unit.text["A.r"]]), [n, 16 + n] + mem, "raw data")
    return scenario


def flags(unit):
    def scenario(env):
        on = [env.boolean("on%d" % i) for i in range(5)]
        lens = [3, 2, 9, 5, 18]
        bufs = []
        for r, n in zip("vwiro", lens):
            bufs += [framed([0] * n), unit.text["A." + r]]
        on = [1 if x else 0 for x in on]
        got = unit.call(env, "Flags", bufs, on)
        eq(env, got, on + [0, 1, sum((16 + n) * x for n, x in zip(lens, on))], "resources which are there are open, and add up to the archive's size")
    return scenario


def multivector(unit, name, buckets, per, repeat=False, size=False):
    width, types = MV[name]
    types = types.split()
    isz = (width + 7) // 8
    def scenario(env):
        data, index, want, k = [], [], [], 0
        for b in range(buckets):
            index.append(len(data))
            out, left = [], list(range(len(types)))
            for j in range(env.int_in("len%d" % b, 0, min(per, len(types))).__index__()):
                if repeat:
                    ty = env.int_in("type%d_%d" % (b, j), 0, len(types) - 1).__index__()
                else:
                    ty = left.pop(env.int_in("type%d_%d" % (b, j), 0, len(left) - 1).__index__())
                s = types[ty]
                mem = list(env.bytes("v%d_%d" % (k, SIZE[s]), SIZE[s]))
                k += 1
                data += [ty] + mem
                out += [ty] + item(s, mem)
            want.append(out)
        index.append(len(data))
        bufs = [framed(data), framed([(o >> (8 * i)) & 255 for o in index for i in range(isz)]), unit.text[name + ".m"],
                b"index(%s)" % unit.text[name + ".m"]]
        got = unit.call(env, "MvSize_" + name, bufs)
        env.prove(got[1] == 16 + len(data), "size in bytes")
        if size:
            env.prove(got[0] == buckets, "number of buckets")
            return
        for b in range(buckets):
            got = unit.call(env, "Mv_" + name, bufs, [b])
            eq(env, got, want[b], "bucket %d" % b)
    return scenario


def build():
    schema = SCHEMA % "\n".join("archive %s { m : multivector< %d, %s >; }" % (m, w, t.replace(" ", ", ")) for m, (w, t) in MV.items())
    unit = GoUnit("O02", {"gen": schema}, body()).build()
    tree = Engine(schema).tree
    unit.text = {p: tree.schema(tree.find(".n." + p)).encode() for p in ["A." + r for r in "vwiro"] + [m + ".m" for m in MV]}
    N = tier(4, 9)
    hs = []
    bounds = "content symbolic; vectors of 0..%d items, all slices within them" % N
    for name, s in (("v", "S"), ("w", "U"), ("o", "T")):
        for n in range(N + 1):
            hs.append(PyHarness("vector/%s/%d" % (name, n), vector(unit, name, s, n), [], bounds, validate=3))
        hs.append(PyHarness("slice/" + name, slices(unit, name, s, N), [], bounds, validate=3, weight=9))
        hs.append(PyHarness("count/" + name, size_field(unit, name, s, N), [], bounds, validate=3))
    hs.append(PyHarness("instance", instance(unit), [], "content symbolic"))
    for n in range(tier(6, 20)):
        hs.append(PyHarness("raw/%d" % n, raw(unit, n), [], "raw data of 0..%d bytes" % (tier(6, 20) - 1), validate=2))
    hs.append(PyHarness("flags", flags(unit), [], "every subset of the resources", validate=4))
    for m in MV:
        B, P = tier((2, 2), (3, 3))
        what = "multivectors: index widths 8, 20, 33, 64, two or three types, up to %d buckets of up to %d elements of different types" % (B, P)
        hs.append(PyHarness("multivector/" + m, multivector(unit, m, B, P), [], what, validate=3, weight=20))
        hs.append(PyHarness("same_type/" + m, multivector(unit, m, 1, 2, repeat=True), [], "multivectors: elements of the same type in a bucket",
                            known="O02/same-type-elements"))
        hs.append(PyHarness("buckets/" + m, multivector(unit, m, 1, 0, size=True), [], "multivectors: number of buckets", known="O02/sentinel-counted"))
    return hs


main("O02", build, GO_ASSUME, "enumerations, sub-archives; indices outside the container; damaged data")
