"""Writes known_findings.json (run by hand): subject of each fix commit -> property and what failed."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIX = {}
KNOWN = []


def fix(subject, prop, what):
    FIX[subject] = (prop, what)


exec(open(os.path.join(V, "tools", "findings.py")).read())
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout
out = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if s.startswith("fix: "):
        p, w = FIX.pop(s[5:])
        out.append({"property": p, "status": "fixed", "commit": h, "entry": "fixed: property=%s %s %s" % (p, h, w)})
assert not FIX, FIX
json.dump({"findings": out + KNOWN}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(out), "fixed", len(KNOWN), "known")
