"""Behaviour-preserving edits on which the checks must stay quiet: python tools/reflab.py SPEC [id...]
SPEC calls ref(id, checks, [(file, old, new)...]) and runs in a private copy of /repo (see seedlab.isolate)."""
import os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REFS = []


def ref(id, checks, edits):
    REFS.append((id, checks, edits))


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def isolate():
    if os.environ.get("REFLAB"):
        return
    t = tempfile.mkdtemp(prefix="reflab")
    run(["cp", "-a", "/repo", t + "/repo"])
    for d in ("out", "evidence", "rep", "tmp"):
        os.makedirs(t + "/" + d)
    cmd = ("mount --bind {0}/repo /repo && mount --bind {0}/out {1}/out && mount --bind {0}/evidence {1}/evidence && "
           "mount --bind {0}/rep /opt/vp/reports && git -C /repo checkout -q -- . && REFLAB=1 TMPDIR={0}/tmp exec \"$@\"").format(t, V)
    r = subprocess.run(["unshare", "-m", "bash", "-c", cmd, "x", sys.executable, "-u"] + sys.argv)
    shutil.rmtree(t, ignore_errors=True)
    sys.exit(r.returncode)


def main():
    isolate()
    exec(open(sys.argv[1]).read(), globals())
    only = sys.argv[2:]
    for id, checks, edits in REFS:
        if only and not any(o in id for o in only):
            continue
        ok = True
        for f, a, b in edits:
            p = os.path.join("/repo", f)
            s = open(p).read()
            if s.count(a) != 1:
                print(id, "EDIT does not match once:", f, s.count(a), repr(a))
                ok = False
            open(p, "w").write(s.replace(a, b))
        if ok:
            run(["bash", "/opt/vp/build.sh"])
            t = run(["bash", "/opt/vp/test.sh", os.environ["TMPDIR"] + "/r.json"]).stdout.strip().splitlines()
            t = [l[:150] for l in t if "FAILED" in l or "Error" in l][:4] + t[-1:]
            for c in checks.split():
                t0 = time.time()
                r = run(["timeout", "900", "/opt/venv/bin/python", "checks/%s.py" % c], cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                print(id, c, "exit", r.returncode, "%.0fs" % (time.time() - t0), t, "" if r.returncode == 0 else r.stdout[-1500:], flush=True)
        run(["git", "-C", "/repo", "checkout", "--", "."])


main()
