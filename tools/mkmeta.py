#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/props.py + config.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "tools"))
import config, props
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")
checks, na = [], []
for p in props.PROPS:
    i = p["id"]
    if i in config.PROPS:
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the compiled implementation (LLVM IR regenerated from /repo), SMT-decided assertions over all inputs within bounds",
            "level": "model_checking",
            "level_note": "Every path of the real code is decided for all values within the bounds: " + "; ".join("%s: %s" % (h["fn"], h["bound"]) for h in config.PROPS[i]["harnesses"])
            + ". Trusted: the executor (cross-checked natively on every counterexample and a sample of passing paths), the hand-written oracle, rustc. Outside the bounds nothing is claimed. " + p.get("note", ""),
        })
    else:
        na.append({"property": i, "reason": p.get("na", "check not built yet")})
json.dump({
    "version": 1,
    "setup_cmd": "sh engine/build.sh build/engine-setup && python3 -c 'import json;json.load(open(\"known_findings.json\"))'",
    "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo are needed: only public API (including the doc-hidden schemars::_private used by derived code) is exercised. See DESIGN.md.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not applicable")
