#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below (kept beside it so that both stay in step)."""
import json, sys
T = "deterministic simulation with fault injection (seeded search over schedules and faults)"
NOTES = {}
exec(open(__file__.rsplit('/',1)[0] + '/notes.py').read())
checks = [{"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"./check.sh {p}", "evidence_file": f"evidence/{p}.json", "technique": T, "level": "exploration", "level_note": n} for p, n in NOTES.items()]
m = {"version": 1, "setup_cmd": "./check.sh build",
     "hooks": {"guard": "--cfg big_o_sim", "enable": "sim/.cargo/config.toml passes --cfg big_o_sim to rustc when /verif/sim (which has a path dependency on /repo) is built", "source_commits": HOOKS},
     "checks": checks, "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()]}
json.dump(m, open(__file__.rsplit('/',1)[0] + '/MANIFEST.json', 'w'), indent=1)
