"""where.py CHECK HARNESS: the compiled functions active when the engine reports a fault."""
import sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/engine", V + "/checks", V + "/tools"]
import common, llsym, subprocess
def trace(tag):
    f = sys._getframe(2); out = []
    while f:
        if f.f_code.co_name == "exec":
            fn = f.f_locals.get("fn") or f.f_locals.get("f")
            out.append(getattr(fn, "name", "?"))
        f = f.f_back
    r = subprocess.run(["c++filt"] + [x[1:] for x in out], capture_output=True, text=True).stdout.split("\n")
    print("--", tag); [print("   ", x[:150]) for x in r[:14]]
old = llsym.Machine.bad
def bad(self, *a):
    trace("bad " + str(a)[:200]); return old(self, *a)
llsym.Machine.bad = bad
oi = llsym._Unwind.__init__
def init(self, *a, **k):
    trace("thrown"); oi(self, *a, **k)
llsym._Unwind.__init__ = init
sys.argv = ["dbg"] + sys.argv[1:]
exec(open(V + "/tools/dbg.py").read())
