"""Write /verif/MANIFEST.json: python3 tools/mkmanifest.py"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOTE = {}
exec(open(os.path.join(ROOT, "tools", "notes.py")).read())
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": "python3 checks/check.py %s quick" % i,
        "thorough_cmd": "python3 checks/check.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": TECH.get(i, "TLA+ specification of the decoder checked with TLC; recorded histories of the real decoder validated against it (trace validation)"),
        "level": "model_checking",
        "level_note": NOTE.get(i, DEFAULT),
    })
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [],
           "notes": "All checks are one driver (checks/check.py) over the TLA+ modules in spec/ and the Rust harness in harness/. No hooks in /repo: the public API is enough."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
