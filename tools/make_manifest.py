"""Regenerates MANIFEST.json: claimed properties from CLAIMED, the rest of
properties.jsonl under not_applicable."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parents[1]
CLAIMED = json.loads((root / "tools" / "claimed.json").read_text())
NA = json.loads((root / "tools" / "not_applicable.json").read_text())
ids = [json.loads(l)["id"] for l in (root / "properties.jsonl").open()]
checks, na = [], []
for i in ids:
    if i in CLAIMED:
        c = CLAIMED[i]
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "technique": "static analysis: " + c["technique"],
            "level": "other",
            "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
(root / "MANIFEST.json").write_text(json.dumps({
    "version": 1, "setup_cmd": "true", "checks": checks,
    "not_applicable": na,
    "notes": "Pure static analysis of /repo's current source (pdrlint); no "
             "hooks in /repo, nothing of pdr is imported or run by a check."},
    indent=1) + "\n")
