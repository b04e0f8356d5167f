#!/usr/bin/env python3
# Writes /verif/MANIFEST.json.  Run: python3 tools/gen_manifest.py
import json, os, re, glob
root = os.path.join(os.path.dirname(__file__), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
have = set()
for f in glob.glob(os.path.join(root, "harness", "*.go")):
    have |= set(re.findall(r'ID:\s*"(C\d\d)"', open(f).read()))
T = {}
exec(open(os.path.join(os.path.dirname(__file__), "manifest_src.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        t, note = T[i]
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
            "technique": t, "level": "exploration",
            "level_note": note + " Held on the executions of the run (counted in the evidence file), never verified."})
    else:
        na.append({"property": i, "reason": NA.get(i, "the monitor for this property is not built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "verif", "enable": "go build -tags verif (check.sh); no hook is needed in /repo so far: every monitor observes the public boundary of the interpreter", "source_commits": HOOKS},
     "checks": checks, "not_applicable": na,
     "notes": "Harness: /verif/harness (Go module that replaces github.com/steelseries/golisp by /repo). See DESIGN.md."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
