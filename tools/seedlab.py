"""Makes and confirms planted bugs: python tools/seedlab.py SPEC [id...]
SPEC is a Python file calling seed(id, prop, edits, demo, needs, breaks, kind)."""
import json, os, shutil, tempfile, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = []


def seed(id, prop, edits, demo, needs, breaks, kind="py", schema=None):
    SEEDS.append((id, prop, edits, demo, needs, breaks, kind, schema))


PYSH = '#!/bin/bash\nset -e\nD=$(cd "$(dirname "$0")" && pwd)\nexec /opt/venv/bin/python -B "$D/demo.py"\n'
CPPSH = '''#!/bin/bash
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
PYTHONPATH=$PWD/flatdata-generator /opt/venv/bin/python -B -c "
import sys
from flatdata.generator.engine import Engine
open(sys.argv[2], 'w').write(Engine(open(sys.argv[1]).read()).render('cpp'))" "$D/schema.flatdata" "$T/schema.hpp"
g++ -std=c++17 -O0 -g -w -fsanitize=address,undefined -fno-sanitize-recover=all -Iflatdata-cpp/include -I"$T" "$D/demo.cpp" flatdata-cpp/src/*.cpp -o "$T/demo" -lboost_filesystem -lboost_system
cd "$T"
ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
'''
RSSH = '''#!/bin/bash
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
PYTHONPATH=$PWD/flatdata-generator /opt/venv/bin/python -B -c "
import sys
from flatdata.generator.engine import Engine
open(sys.argv[2], 'w').write(Engine(open(sys.argv[1]).read()).render('rust'))" "$D/schema.flatdata" "$T/gen.rs"
X=""
for s in diff memmap2 walkdir; do rustc --edition 2018 --crate-type rlib "$D/$s.rs" --out-dir "$T"; X="$X --extern $s=$T/lib$s.rlib"; done
rustc --edition 2018 --cap-lints allow --crate-type rlib --crate-name flatdata flatdata-rs/lib/src/lib.rs --out-dir "$T" -L "$T" $X
{ echo '#![allow(warnings)] #[macro_use] extern crate flatdata; use flatdata::*;'; cat "$T/gen.rs" "$D/demo.rs"; } > "$T/demo.rs"
rustc --edition 2018 --cap-lints allow "$T/demo.rs" -L "$T" --extern flatdata="$T/libflatdata.rlib" -o "$T/demo"
cd "$T"
timeout 120 ./demo
'''
GOSH = '''#!/bin/bash
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'chmod -R u+w "$T"; rm -rf "$T"' EXIT
M=github.com/heremaps/flatdata/flatdata-go
mkdir -p "$T/mod/gen" "$T/mod/cmd" "$T/mod/flatdata" "$T/mod/xexp/mmap"
printf 'module %s\\n\\ngo 1.21\\n\\nrequire golang.org/x/exp v0.0.0\\n\\nreplace golang.org/x/exp => ./xexp\\n' $M > "$T/mod/go.mod"
printf 'module golang.org/x/exp\\n\\ngo 1.21\\n' > "$T/mod/xexp/go.mod"
cp "$D/mmap.go" "$T/mod/xexp/mmap/"
for f in flatdata-go/flatdata/*.go; do case $f in *_test.go) ;; *) cp "$f" "$T/mod/flatdata/";; esac; done
PYTHONPATH=$PWD/flatdata-generator /opt/venv/bin/python -B -c "
import sys
from flatdata.generator.engine import Engine
open(sys.argv[2], 'w').write(Engine(open(sys.argv[1]).read()).render('go'))" "$D/schema.flatdata" "$T/mod/gen/gen.go"
cp "$D/demo.go" "$T/mod/cmd/main.go"
cd "$T/mod"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GONOSUMDB=* GOTOOLCHAIN=local GOCACHE="$T/cache" CGO_ENABLED=0 HOME="${HOME:-/root}"
go build -o "$T/demo" ./cmd
cd "$T"
timeout 60 ./demo
'''


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def clean():
    run(["git", "-C", "/repo", "checkout", "--", "."])


def isolate():
    """own copy of /repo (and of what checks and tests write) in a mount namespace"""
    if os.environ.get("SEEDLAB"):
        return
    t = tempfile.mkdtemp(prefix="seedlab")
    run(["cp", "-a", "/repo", t + "/repo"])
    for d in ("out", "evidence", "rep", "tmp"):
        os.makedirs(t + "/" + d)
    os.makedirs(V + "/out", exist_ok=True)
    cmd = ("mount --bind {0}/repo /repo && mount --bind {0}/out {1}/out && mount --bind {0}/evidence {1}/evidence && "
           "mount --bind {0}/rep /opt/vp/reports && git -C /repo checkout -q -- . && SEEDLAB=1 TMPDIR={0}/tmp exec \"$@\"").format(t, V)
    r = subprocess.run(["unshare", "-m", "bash", "-c", cmd, "x", sys.executable, "-u"] + sys.argv)
    shutil.rmtree(t, ignore_errors=True)
    sys.exit(r.returncode)


def main():
    isolate()
    exec(open(sys.argv[1]).read(), globals())
    only = sys.argv[2:]
    for id, prop, edits, demo, needs, breaks, kind, schema in SEEDS:
        if only and id not in only:
            continue
        d = os.path.join(V, "seeded", id)
        assert not run(["git", "-C", "/repo", "status", "--porcelain"]).stdout.strip()
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.sh", "w").write({"py": PYSH, "cpp": CPPSH, "rs": RSSH, "go": GOSH}[kind])
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo." + kind, "w").write(demo)
        if kind == "rs":
            for n in ("diff", "memmap2", "walkdir"):
                shutil.copy(V + "/engine/rsstub/%s.rs" % n, d)
        if kind == "go":
            shutil.copy(V + "/engine/gostub/mmap.go", d)
        if schema:
            open(d + "/schema.flatdata", "w").write(schema)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        good = run(["bash", d + "/demo.sh"], cwd="/repo")
        try:
            bad_edit = False
            for f, a, b in edits:
                p = os.path.join("/repo", f)
                s = open(p).read()
                if s.count(a) != 1:
                    print(id, "EDIT does not match once:", f, s.count(a), repr(a))
                    bad_edit = True
                open(p, "w").write(s.replace(a, b))
            if bad_edit:
                continue
            diff = run(["git", "-C", "/repo", "diff"]).stdout
            open(d + "/patch.diff", "w").write(diff)
            bad = run(["bash", d + "/demo.sh"], cwd="/repo")
            b = run(["bash", "/opt/vp/build.sh"])
            t = run(["bash", "/opt/vp/test.sh", os.environ["TMPDIR"] + "/seed.json"])
            chk = run(["/opt/venv/bin/python", "checks/%s.py" % prop], cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            lines = [l for l in chk.stdout.splitlines() if l.startswith("VIOLATION")]
            print("%s: demo clean %s, planted %s; build %s; tests %s; check %s exit %s %s" % (
                id, good.returncode, bad.returncode, b.returncode, t.stdout.strip().splitlines()[-1:], prop, chk.returncode, lines[:1]), flush=True)
            res = os.path.join(V, "tools", "seed_results.json")
            allr = json.load(open(res)) if os.path.exists(res) else {}
            allr[id] = {"demo_clean": good.returncode, "demo_planted": bad.returncode,
                        "tests": (t.stdout.strip().splitlines() or [""])[-1],
                        "check_exit": chk.returncode, "caught": bool(lines),
                        "harness": os.path.basename(lines[0].split("replay=")[1]) if lines else None}
            json.dump(allr, open(res, "w"), indent=1, sort_keys=True)
            if good.returncode:
                print(good.stdout[-1500:])
            if not bad.returncode:
                print("  demo did not fail:", bad.stdout[-500:])
            if chk.returncode not in (1,):
                print("  ", chk.stdout[-1200:])
        finally:
            clean()


main()
