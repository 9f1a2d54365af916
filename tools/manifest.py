#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and the list of built checks."""
import json, subprocess, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
built = {l.split()[0] for l in subprocess.check_output([f"{root}/harness/target/debug/wzpbt", "list"], text=True).splitlines()}
tech = json.load(open(f"{root}/tools/techniques.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in built:
        t, note = tech[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": "generated-input check not built yet"})
m = {"version": 1, "hooks": {"guard": "--cfg wz_sched (RUSTFLAGS): src/sync.rs takes the RwLock around nodes and keys from a crate wz_sched (/verif/harness/sched/lib.rs) instead of std, so that a check can decide how threads take turns", "enable": "build_env.sh build_cfg sched, used by run.sh C21", "source_commits": ["a802dbb"]}, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
