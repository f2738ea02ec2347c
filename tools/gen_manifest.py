#!/usr/bin/env python3
# writes MANIFEST.json from the list of claimed checks
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in open(root/'properties.jsonl')]
CLAIMED = json.load(open(root/'tools/claimed.json'))
m = {"version": 1, "setup_cmd": "bash check.sh --build", "checks": [], "not_applicable": []}
for p in props:
    i = p['id']
    if i in CLAIMED:
        c = CLAIMED[i]
        m["checks"].append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(root/'MANIFEST.json', 'w'), indent=1)
open(root/'MANIFEST.json','a').write('\n')
