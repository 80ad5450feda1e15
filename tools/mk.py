"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "flatdata-py/flatdata/lib/"
GEN = "flatdata-generator/flatdata/generator/"
SYM = "symbolic execution of the real Python code (path forking, z3 bit-vectors)"
LL = "symbolic execution of the compiler's LLVM IR of the real code (z3 bit-vectors)"
ENV_PY = ("Bounded: every value within the stated bounds, on the real Python functions run under symbolic "
          "operands; every path is replayed on a witness with the unmodified code. Trusts z3 and the operand "
          "classes of engine/pysym.py.")
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, technique=technique, note=note, na=na))


exec(open(os.path.join(V, "tools", "table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [dict(name=a, where=b) for a, b in p["mech"]]},
        }) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        cmd = "/opt/venv/bin/python checks/%s.py" % p["id"]
        m["checks"].append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
                            "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "checks")
