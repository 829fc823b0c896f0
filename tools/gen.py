#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from tools/meta/*.json (one file per property)."""
import glob, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "vt"))
props, checks, na = [], [], []
for f in sorted(glob.glob(os.path.join(H, "tools", "meta", "*.json"))):
    for d in json.load(open(f)):
        p = {k: d[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(p["title"]) <= 80, p["id"]
        props.append(p)
        if "na" in d:
            na.append({"property": d["id"], "reason": d["na"]})
        else:
            c = "python3 check.py %s" % d["id"]
            checks.append({"property": d["id"], "quick_cmd": c, "thorough_cmd": c + " --tier thorough",
                           "technique": d["technique"], "level": "other", "level_note": d["level_note"]})
props.sort(key=lambda p: p["id"]); checks.sort(key=lambda p: p["property"]); na.sort(key=lambda p: p["property"])
open(os.path.join(H, "properties.jsonl"), "w").write("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in props))
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Static analysis of the LLVM IR of both shipped configurations (OpenSSL, mbedTLS); nothing of /repo is executed. See DESIGN.md."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(props), "properties,", len(checks), "checks")
