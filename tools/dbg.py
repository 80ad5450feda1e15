"""dbg.py CHECK HARNESS: runs one harness in this process and shows the full traceback."""
import importlib, os, sys, traceback
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/engine", V + "/checks"]
import common, pysym


def run(h, ex):
    ex.observe, ex.symbolic, ex.all = (lambda *a: None), True, pysym.sand
    with pysym.shimmed(extra=h.extra, omit=h.omit, overrides=h.overrides):
        ex.run(h.scenario)


m = importlib.import_module(sys.argv[1])
for h in m.build():
    if h.name == sys.argv[2]:
        ex = pysym.Explorer()
        try:
            run(h, ex)
            print("ok", ex.stats.__dict__)
        except BaseException:
            traceback.print_exc()
