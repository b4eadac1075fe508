"""tools/claim.py ID technique note : register a check in the manifest"""
import json, sys, subprocess, os
here = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(here, "claimed.json")
d = json.load(open(p))
d[sys.argv[1]] = {"technique": sys.argv[2], "note": sys.argv[3]}
json.dump(dict(sorted(d.items())), open(p, "w"), indent=1)
subprocess.check_call([sys.executable, os.path.join(here, "make_manifest.py")])
