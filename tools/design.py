"""Writes DESIGN.md from design_head.md, design_secs.py, findings.py, seeded/ and design_tail.md"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path.insert(0, H)
import design_secs
out = [open(H + "/design_head.md").read().rstrip(), "", design_secs.text()]
k = json.load(open(V + "/known_findings.json"))["findings"]
out += ["## Defects found", "", "Repaired, one commit each in `/repo` (the check reports the violation again when the commit is reverted):", ""]
out += ["* " + f["entry"].replace("fixed: ", "") for f in k if f["status"] == "fixed"]
out += ["", "Recorded, not repaired (`known_findings.json`, printed as KNOWN-FINDING by the check):", ""]
out += ["* %s: %s" % (f["property"], f.get("entry") or f.get("what") or f.get("description") or json.dumps(f)) for f in k if f["status"] != "fixed"]
out += ["", "## Planted bugs and what catches them", "",
        "Made with `tools/seedlab.py`; every one builds and passes the 378 tests. 'caught by' names the harness whose replay file the VIOLATION line gave.", "",
        "| bug | property | needs | caught by |", "|---|---|---|---|"]
res = json.load(open(H + "/seed_results.json")) if os.path.exists(H + "/seed_results.json") else {}
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    r = res.get(d)
    out.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"),
               "(see git log)" if r is None else (r["harness"] or "").replace(".json", "") if r["caught"] else "**missed**"))
out.append(open(H + "/design_tail.md").read())
open(V + "/DESIGN.md", "w").write("\n".join(out).replace("\n\n\n", "\n\n"))
