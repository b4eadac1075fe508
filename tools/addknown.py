"""usage: addknown.py PROPERTY KEY TEXT"""
import json, sys, pathlib
p = pathlib.Path(__file__).parent.parent / "known_findings.json"
d = json.loads(p.read_text())
prop, key, text = sys.argv[1:4]
d["findings"] = [e for e in d["findings"]
                 if (e["property"], e["key"]) != (prop, key)]
d["findings"].append({"property": prop, "key": key, "what": text})
p.write_text(json.dumps(d, indent=1) + "\n")
