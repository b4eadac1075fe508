"""usage: addfixed.py PROPERTY COMMIT TEXT"""
import json, sys, pathlib
p = pathlib.Path(__file__).parent.parent / "known_findings.json"
d = json.loads(p.read_text())
d["fixed"].append(f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}")
p.write_text(json.dumps(d, indent=1) + "\n")
