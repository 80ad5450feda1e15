"""O03: opening archives in Go."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from golib import *

SCHEMA = """namespace n {
struct S { a : u8 : 3; b : i32 : 17; c : u8 : 4; }
archive V { r : vector< S >; }
archive O { @optional r : vector< S >; }
archive I { r : S; }
archive R { r : raw_data; }
archive M { r : multivector< 16, S >; }
archive P { first : raw_data; @optional second : vector< S >; third : S; }
archive Sub { x : raw_data; y : S; }
archive Top { sub : archive Sub; own : raw_data; }
}"""
FIELD = {"V": "RVector", "O": "RVector", "I": "RInstance", "R": "RRawData", "M": "RMultivector"}
OK, MISSING, INVALID, NO_SCHEMA, EMPTY, MISMATCH = 1, 10, 11, 12, 13, 14


def body():
    out = ['''
func code(err error) int64 {
	if err == nil { return 1 }
	switch err.Error() {
	case flatdata.ErrorCantAccessResource: return 10
	case flatdata.ErrorInvalidResource: return 11
	case flatdata.ErrorCantOpenSchemaForResource: return 12
	case flatdata.ErrorSchemaEmpty: return 13
	case flatdata.ErrorSchemaDidntMatch: return 14
	}
	return 99
}
func flag(x bool) int64 { if x { return 1 }; return 0 }
// a: for every name, whether the content is there, whether the schema is there; b: the contents and schemas
func memory(names []string, b [][]byte, a []int64) flatdata.ResourceStorage {
	d, x := map[string]flatdata.MemoryDescriptor{}, map[string]string{}
	for i, n := range names {
		if a[2*i] != 0 { d[n] = mem(b[2*i]) }
		if a[2*i+1] != 0 { x[n] = string(b[2*i+1]) }
	}
	return &flatdata.InMemoryResourceStorage{Descriptors: d, Schemas: x}
}
func get(st flatdata.ResourceStorage, name string) []int64 {
	d, s, err := st.GetMemoryDescriptor(name)
	if err != nil { return []int64{code(err), flag(d == nil), int64(len(s))} }
	out := []int64{1, int64(d.Len())}
	for i := 0; i < d.Len(); i++ { out = append(out, int64(d.At(i))) }
	for _, c := range []byte(s) { out = append(out, int64(c)) }
	return out
}
func MemGet(b [][]byte, a []int64) []int64 { return get(memory([]string{"r"}, b, a), "r") }
func FileGet(b [][]byte, a []int64) []int64 { return get(flatdata.NewFileResourceStorage(string(b[0])), string(b[1])) }
func OpenP(b [][]byte, a []int64) []int64 {
	v, err := gen.OpenPArchive(memory([]string{"first", "second", "third"}, b, a))
	if err != nil { return []int64{code(err)} }
	return []int64{1, flag(v.FirstRawData.IsOpen), flag(v.SecondVector.IsOpen), flag(v.ThirdInstance.IsOpen)}
}
func OpenTop(b [][]byte, a []int64) []int64 {
	v, err := gen.OpenTopArchive(flatdata.NewFileResourceStorage(string(b[0])))
	if err != nil { return []int64{code(err)} }
	out := []int64{1, flag(v.OwnRawData.IsOpen), flag(v.SubArchive.XRawData.IsOpen), flag(v.SubArchive.YInstance.IsOpen)}
	if v.SubArchive.XRawData.IsOpen { for _, x := range v.SubArchive.XRawData.GetValue() { out = append(out, int64(x)) } }
	return out
}''']
    for n, f in FIELD.items():
        names = '"r", "r_index"' if n == "M" else '"r"'
        out.append('''
func OpenMem_%(n)s(b [][]byte, a []int64) []int64 {
	v, err := gen.Open%(n)sArchive(memory([]string{%(names)s}, b, a))
	if err != nil { return []int64{code(err)} }
	return []int64{1, flag(v.%(f)s.IsOpen)}
}
func OpenFile_%(n)s(b [][]byte, a []int64) []int64 {
	v, err := gen.Open%(n)sArchive(flatdata.NewFileResourceStorage(string(b[0])))
	if err != nil { return []int64{code(err)} }
	return []int64{1, flag(v.%(f)s.IsOpen)}
}''' % dict(n=n, f=f, names=names))
    return "\n".join(out)


def outcome(there, size, schema_there, schema_len):
    if not there:
        return MISSING
    if size < 16:
        return INVALID
    if not schema_there:
        return NO_SCHEMA
    return EMPTY if schema_len == 0 else OK


def storage(unit, files, n, k):
    """content of n bytes, schema of k bytes"""
    def scenario(env):
        mem, text = list(env.bytes("mem", n)), list(env.bytes("schema", k))
        there, schema_there = int(bool(env.boolean("there"))), int(bool(env.boolean("schema_there")))
        if files:
            fs = dict([("r", mem)] * there + [("r.schema", text)] * schema_there)
            got = unit.call(env, "FileGet", [b"A.archive", b"r"], files=fs)
        else:
            got = unit.call(env, "MemGet", [mem, text], [there, schema_there])
        want = outcome(there, n, schema_there, k)
        if want == OK:
            want = [OK, n] + mem + text
            env.prove(len(got) == len(want), "content and schema are given")
            env.prove(env.all(*[x == y for x, y in zip(got, want)]), "content and schema are those stored")
        else:
            env.prove(len(got) == 3 and env.all(got[0] == want, got[1] == 1, got[2] == 0), "error")
        env.observe("got", got)
    return scenario


def variant(env, text, delta):
    """any text of this length"""
    return list(env.bytes("text", len(text) + delta))


def opened(unit, name, files, n, delta):
    """one resource: content and schema are there or not, the schema is right or wrong"""
    text = unit.text[name + ".r"]
    def scenario(env):
        mem = list(env.bytes("mem", n))
        schema = variant(env, text, delta)
        there, schema_there = int(bool(env.boolean("there"))), int(bool(env.boolean("schema_there")))
        if name == "M":
            index, it = framed([0, 0, 4, 0]), b"index(%s)" % text
        if files:
            fs = dict([("r", mem)] * there + [("r.schema", schema)] * schema_there)
            if name == "M":
                fs.update({"r_index": index, "r_index.schema": it})
            got = unit.call(env, "OpenFile_" + name, [b"A.archive"], files=fs)
        else:
            bufs, a = [mem, schema], [there, schema_there]
            if name == "M":
                bufs, a = bufs + [index, it], a + [1, 1]
            got = unit.call(env, "OpenMem_" + name, bufs, a)
        want = outcome(there, n, schema_there, len(schema))
        if want == OK:
            same = env.all(len(schema) == len(text), *[x == y for x, y in zip(schema, text)])
            env.prove((got[0] == OK) == same, "opened exactly when the schema is the expected one")
            env.prove(env.all(got[0] == OK, len(got) == 2 and got[1] == 1) if len(got) == 2 else got[0] == MISMATCH, "schema mismatch")
        elif want == MISSING:
            env.prove(len(got) == 2 and env.all(got[0] == OK, got[1] == 0), "a missing resource is reported as not open")
        else:
            env.prove(len(got) == 1 and got[0] == want, "damaged resources are refused")
        env.observe("got", got)
    return scenario


def index(unit, files, n, part=None):
    """the index of a multivector"""
    text = unit.text["M.r"]
    def scenario(env):
        mem = list(env.bytes("mem", n))
        it = b"index(%s)" % text
        if part == "schema":
            it = variant(env, it, 0)
            there = schema_there = 1
        else:
            there, schema_there = int(bool(env.boolean("there"))), int(bool(env.boolean("schema_there")))
        data = framed([0, 1, 2, 3])
        if files:
            fs = dict([("r", data), ("r.schema", text)] + [("r_index", mem)] * there + [("r_index.schema", it)] * schema_there)
            got = unit.call(env, "OpenFile_M", [b"A.archive"], files=fs)
        else:
            got = unit.call(env, "OpenMem_M", [data, text, mem, it], [1, 1, there, schema_there])
        want = outcome(there, n, schema_there, len(it))
        if want == OK:
            same = env.all(*[x == y for x, y in zip(it, b"index(%s)" % text)])
            env.prove(env.all(got[0] == OK, got[-1] == 1) == same, "opened exactly when the index's schema is the expected one")
        elif want == MISSING:
            env.prove(len(got) == 2 and env.all(got[0] == OK, got[1] == 0), "a multivector without index is not open")
        else:
            env.prove(len(got) == 1 and got[0] == want, "damaged indices are refused")
    return scenario


def several(unit):
    """one resource's state decides about that resource; the first damage about the archive"""
    names = ["first", "second", "third"]
    def scenario(env):
        bufs, a, want, err = [], [], [OK], None
        for k, n in enumerate(names):
            state = env.int_in("state_" + n, 0, 4).__index__()      # missing, short, no schema, wrong schema, good
            mem = list(env.bytes("mem_" + n, 15 if state == 1 else 19))
            text = list(unit.text["P." + n])
            if state == 3:
                other = list(env.bytes("text_" + n, len(text)))
                same = env.all(*[x == y for x, y in zip(other, text)])
                env.assume(same == False)   # noqa: E712
                text = other
            bufs += [mem, text]
            a += [int(state != 0), int(state not in (0, 2))]
            code = [MISSING, INVALID, NO_SCHEMA, MISMATCH, OK][state]
            want.append(int(state == 4))
            if code not in (OK, MISSING) and err is None:
                err = code
        got = unit.call(env, "OpenP", bufs, a)
        want = [err] if err else want
        env.prove(len(got) == len(want) and env.all(*[x == y for x, y in zip(got, want)]), "several resources")
    return scenario


def sub(unit):
    """resources of a sub-archive lie in the directory of its name"""
    def scenario(env):
        mem, decoy = list(env.bytes("mem", 3)), list(env.bytes("decoy", 3))
        x, y, own = [int(bool(env.boolean(k))) for k in ("x", "y", "own")]
        fs = {"x": framed(decoy), "x.schema": unit.text["Sub.x"]}
        if x:
            fs.update({"sub/x": framed(mem), "sub/x.schema": unit.text["Sub.x"]})
        if y:
            fs.update({"sub/y": framed(mem), "sub/y.schema": unit.text["Sub.y"]})
        if own:
            fs.update({"own": framed(decoy), "own.schema": unit.text["Top.own"]})
        got = unit.call(env, "OpenTop", [b"Top.archive"], files=fs)
        want = [OK, own, x, y] + (mem if x else [])
        env.prove(len(got) == len(want) and env.all(*[p == q for p, q in zip(got, want)]), "sub-archive")
    return scenario


def build():
    unit = GoUnit("O03", {"gen": SCHEMA}, body()).build()
    tree = Engine(SCHEMA).tree
    unit.text = {"%s.%s" % (a, r): tree.schema(tree.find(".n.%s.%s" % (a, r))).encode()
                 for a, rs in [(n, ["r"]) for n in FIELD] + [("P", ["first", "second", "third"]), ("Sub", "xy"), ("Top", ["own"])] for r in rs}
    hs = []
    sizes = (0, 1, 8, 15, 16, 17, 24)
    for f in (0, 1):
        kind = "file" if f else "memory"
        for n in tier(sizes, range(40)):
            for k in (0, 1, 3):
                hs.append(PyHarness("storage/%s/%d/%d" % (kind, n, k), storage(unit, f, n, k), [], "memory and file storage; sizes 0..24, content and schema symbolic",
                                    validate=3))
        for name in FIELD:
            for n in (15, 16, 19):
                for d in tier((0, 1, -1), (0, 1, -1, -2, 2, 3)):
                    if n == 19 or d == 0:
                        hs.append(PyHarness("open/%s/%s/%d/%d" % (kind, name, n, d), opened(unit, name, f, n, d), [],
                                            "all resource kinds; content and schema there or not, schema of the right length with arbitrary content, and of other lengths",
                                            validate=3, weight=4))
        for n in (0, 15, 16, 20):
            hs.append(PyHarness("index/%s/%d" % (kind, n), index(unit, f, n), [], "index of a multivector there or not, with or without schema", validate=3))
        hs.append(PyHarness("index_schema/%s" % kind, index(unit, f, 20, "schema"), [], "schema of the index", known="O03/index-schema"))
    hs.append(PyHarness("several", several(unit), [], "every combination of states of three resources", validate=3, weight=9))
    hs.append(PyHarness("sub", sub(unit), [], "sub-archive, every subset of its resources", validate=3))
    return hs


main("O03", build, GO_ASSUME, "sub-archives whose resource name is not the name of the archive (the generated Go code does not compile); failures of the file system")
