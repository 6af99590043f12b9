"""Regenerates MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
TECH = {}
NOTE = {}
exec(open(os.path.join(V, "tools", "techniques.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in TECH:
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i}",
                       "technique": TECH[i], "level": "model_checking", "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 setup.py",
           "hooks": {"guard": "cfg(verif_hooks)", "enable": "RUSTFLAGS=\"--cfg verif_hooks\" cargo build (done by harness/core.py for the driver crate)",
                     "source_commits": HOOK_COMMITS},
           "checks": checks, "not_applicable": na,
           "notes": "TLA+ specifications in spec/, checked with TLC; driver/ executes the real code; harness/ generates, records and validates traces. Exit 2 means the machinery failed and gave no verdict."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
