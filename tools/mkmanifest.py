"""Write MANIFEST.json from properties.jsonl and the property modules present."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(HERE, "tools", "techniques.json")))
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "kv", "props", i.lower() + ".py")) and i in TECH:
        checks.append({
            "property": i,
            "quick_cmd": "./run.py %s --tier quick" % i,
            "thorough_cmd": "./run.py %s --tier thorough" % i,
            "level": "exploration",
            "technique": TECH[i][0],
            "level_note": TECH[i][1],
        })
    else:
        na.append({"property": i, "reason": "monitor not built yet"})
out = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "Runtime monitoring only: every verdict is an oracle observing executions of the real code "
             "in /repo. See DESIGN.md. No hooks are needed in /repo.",
}
json.dump(out, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
