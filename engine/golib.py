"""Harnesses over the Go package and the code generated for Go: the SSA form of both is built from the sources
and interpreted symbolically; replays run the compiled harness."""
import base64
import json
import tempfile
from cpplib import *
import gosym

GO = os.path.join(REPO, "flatdata-go", "flatdata")
MODULE = "github.com/heremaps/flatdata/flatdata-go"
GO_ASSUME = ["the SSA form which golang.org/x/tools/go/ssa builds from the package and the generated code is the code under test",
             "golang.org/x/exp/mmap (not part of the repository) is a stand-in which reads the whole file",
             "parts of Go's standard library are modelled: errors, fmt (texts are opaque), math.Exp2, encoding/binary.LittleEndian, path/filepath.Join and Dir, reading of files"]

MAIN = '''package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"log"
	"os"

	"%s/h"
)

func main() {
	log.SetOutput(ioutil.Discard)
	var in struct {
		Fn   string
		Bufs [][]byte
		Args []int64
	}
	json.NewDecoder(os.Stdin).Decode(&in)
	defer func() {
		if r := recover(); r != nil {
			b, _ := json.Marshal(map[string]string{"Panic": fmt.Sprint(r)})
			fmt.Println(string(b))
		}
	}()
	f, ok := h.Table[in.Fn]
	if !ok {
		os.Exit(3)
	}
	b, _ := json.Marshal(map[string]interface{}{"Out": f(in.Bufs, in.Args)})
	fmt.Println(string(b))
}
''' % MODULE


class GoUnit:
    """schemas: {package directory: schema text}; body: harness functions
    func Name(b [][]byte, a []int64) []int64, in a package which imports every generated package."""

    def __init__(self, prop, schemas, body):
        self.dir = os.path.join(BUILD, prop)
        self.schemas, self.body = schemas, body

    def build(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        mod = os.path.join(self.dir, "mod")
        files = {"go.mod": "module %s\n\ngo 1.21\n\nrequire golang.org/x/exp v0.0.0\n\nreplace golang.org/x/exp => ./xexp\n" % MODULE,
                 "xexp/go.mod": "module golang.org/x/exp\n\ngo 1.21\n", "cmd/main.go": MAIN,
                 "xexp/mmap/mmap.go": open(os.path.join(VERIF, "engine", "gostub", "mmap.go")).read()}
        for f in os.listdir(GO):
            if f.endswith(".go") and not f.endswith("_test.go"):
                files["flatdata/" + f] = open(os.path.join(GO, f), encoding="utf-8").read()
        for d, s in self.schemas.items():
            files["%s/gen.go" % d] = Engine(s).render("go")
        fns = re.findall(r"^func ([A-Z]\w*)\(b \[\]\[\]byte", self.body, re.M)
        imports = "".join('import %s "%s/%s"\n' % (d, MODULE, d) for d in self.schemas)
        files["h/h.go"] = ("package h\n\n%simport \"%s/flatdata\"\n%s\n\nvar _ flatdata.MemoryDescriptor\n\n"
                           "func mem(d []byte) flatdata.MemoryDescriptor { return &flatdata.TestMemoryDescriptor{Array: d} }\n"
                           % (imports, MODULE, self.body))
        files["h/table.go"] = "package h\n\nvar Table = map[string]func([][]byte, []int64) []int64{%s}\n" % \
            ", ".join('"%s": %s' % (f, f) for f in fns)
        for n, t in files.items():
            p = os.path.join(mod, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w", encoding="utf-8").write(t)
        gossa = os.path.join(self.dir, "gossa")
        shutil.copytree(os.path.join(VERIF, "engine", "gossa"), gossa)
        env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GONOSUMDB="*", GOTOOLCHAIN="local",
                   GOCACHE=os.path.join(self.dir, "cache"), CGO_ENABLED="0")
        env.setdefault("HOME", "/root")
        self.exe = os.path.join(self.dir, "unit.exe")
        with cf.ThreadPoolExecutor(max_workers=2) as pool:
            a = pool.submit(sh, ["go", "build", "-o", os.path.join(self.dir, "dump"), "."], cwd=gossa, env=env)
            b = pool.submit(sh, ["go", "build", "-o", self.exe, "./cmd"], cwd=mod, env=env)
            a.result(), b.result()
        text = sh([os.path.join(self.dir, "dump"), "./flatdata", "./h", "golang.org/x/exp/mmap"] + ["./" + d for d in self.schemas], cwd=mod, env=env)
        shutil.rmtree(os.path.join(self.dir, "cache"), ignore_errors=True)
        self.prog = gosym.Program(json.loads(text))
        return self

    def call(self, env, fn, bufs, args=(), files=None):
        """-> list of 64 bit results (as unsigned numbers); raises Thrown when the code panics.
        files: what the directory named by the first buffer holds"""
        if env.symbolic:
            m = gosym.Machine(self.prog)
            m.fs = {("/m/" + n).encode(): gosym.cells(d) for n, d in (files or {}).items()}
            if files is not None:
                bufs = [b"/m/" + bufs[0]] + list(bufs[1:])
            bs = [gosym.byte_slice(b) for b in bufs]
            if not hasattr(env, "used"):
                env.used = set()
            try:
                r = m.call("%s/h.%s" % (MODULE, fn), [gosym.Slice(bs, 0, len(bs), len(bs)), gosym.int_slice(args)])
            except gosym.GoPanic as x:
                raise Thrown(str(x))
            finally:
                env.used |= {"go:" + f for f in self.prog.used if "/h." not in f}
            return [gosym.wrap(v, 64, 0) for v in r.items()]
        with tempfile.TemporaryDirectory() as d:
            bufs = [bytes(b) for b in bufs]
            if files is not None:
                for n, c in files.items():
                    os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
                    open(os.path.join(d, n), "wb").write(bytes(c))
                bufs[0] = d.encode() + b"/" + bufs[0]
            doc = json.dumps({"Fn": fn, "Bufs": [base64.b64encode(b).decode() for b in bufs], "Args": [int(a) for a in args]})
            try:
                p = subprocess.run([self.exe], input=doc, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=20,
                                   preexec_fn=_limit)
            except subprocess.TimeoutExpired:
                raise Violated("the program does not terminate")
        if p.returncode or not p.stdout:
            raise Violated("the program crashes: %s" % p.stderr[:300])
        out = json.loads(p.stdout)
        if "Panic" in out:
            raise Thrown(out["Panic"])
        return [v & (2 ** 64 - 1) for v in out["Out"] or []]


def _limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))


def framed(payload):
    n = len(payload)
    return [(n >> (8 * i)) & 255 for i in range(8)] + list(payload) + [0] * 8
