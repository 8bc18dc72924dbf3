#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of properties the harness implements."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
src = open(here + '/harness/src/props/mod.rs').read()
have = re.findall(r'"(M\d\d)" =>', src)
notes = json.load(open(here + '/tools/notes.json'))
man = {"version": 1, "setup_cmd": "bash check.sh --build", "checks": [], "not_applicable": []}
for p in props:
    i = p['id']
    if i in have:
        man['checks'].append({
            "property": i,
            "quick_cmd": f"bash check.sh {i} quick",
            "thorough_cmd": f"bash check.sh {i} thorough",
            "technique": notes.get(i, {}).get("technique", "property-based testing (proptest) against a reference model"),
            "level": "exploration",
            "level_note": notes.get(i, {}).get("note", "generated-input search; holds on every generated case, not a proof"),
        })
    else:
        man['not_applicable'].append({"property": i, "reason": notes.get(i, {}).get("na", "check not built yet")})
if not man['not_applicable']:
    del man['not_applicable']
json.dump(man, open(here + '/MANIFEST.json', 'w'), indent=1)
