#!/usr/bin/env python3
"""genmeta.py: writes properties.jsonl, checks.json and MANIFEST.json from meta/*.json (one file per property)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, man, na = [], {}, [], []
for f in sorted(glob.glob(os.path.join(V, "meta", "*.json"))):
    d = json.load(open(f))
    props.append({k: d[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")})
    assert len(d["title"]) <= 80, d["id"]
    if d.get("not_applicable"):
        na.append({"property": d["id"], "reason": d["not_applicable"]})
        continue
    checks[d["id"]] = dict({"bounds": d["bounds"], "outside": d["outside"], "assumptions": d.get("assumptions", [])}, **d.get("conf", {}))
    man.append({"property": d["id"], "quick_cmd": "python3 /verif/bin/check.py %s" % d["id"], "thorough_cmd": "python3 /verif/bin/check.py %s --thorough" % d["id"],
                "technique": "symbolic execution of the project's LLVM IR, decided by Z3 (bit-vectors and IEEE floats); counterexamples replayed natively",
                "level": "model_checking", "level_note": ("Bounds: %s Outside: %s" % (d["bounds"], d["outside"]))[:1500]})
with open(os.path.join(V, "properties.jsonl"), "w") as o:
    for p in props:
        o.write(json.dumps(p) + "\n")
json.dump(checks, open(os.path.join(V, "checks.json"), "w"), indent=1)
json.dump({"version": 1, "setup_cmd": "python3 /verif/bin/vbuild.py", "checks": man, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(props), "properties,", len(man), "checks")
