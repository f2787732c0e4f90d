import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification checked with TLC; "
CLAIMED = json.load(open(V + "/lib/claims.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED["checks"]:
        c = CLAIMED["checks"][i]
        checks.append({"property": i, "quick_cmd": "python3 checks/%s.py" % i.lower(),
                       "thorough_cmd": "VERIF_TIER=thorough python3 checks/%s.py" % i.lower(),
                       "evidence_file": "evidence/%s.json" % i, "technique": T + c["technique"],
                       "level": "model_checking", "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": CLAIMED["na"].get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks: every check observes the program's own output", "source_commits": []},
     "notes": "Specifications in spec/, conformance drivers in checks/ and lib/. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
