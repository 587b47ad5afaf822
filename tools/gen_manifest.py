#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties the harness registers."""
import json, os, subprocess
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
props = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))}
out = subprocess.run(["bash", "-c", f". {root}/harness/env.sh; cd {root}/harness && go run ./cmd -list"], capture_output=True, text=True, check=True).stdout
have = sorted({l.split()[0] for l in out.splitlines()})
TECH = {"X03": "runtime monitoring under the Go race detector: concurrent workloads compared with sequential execution",
        "X02": "runtime monitoring of decoders under mutation fuzzing in memory-limited subprocesses, with panic, allocation and prefix-acceptance monitors"}
DEF = "runtime monitoring: seeded hostile workloads on the real library, observed through its public API by independent reference-model oracles"
checks = []
for p in have:
    assert p in props, p
    checks.append({"property": p, "quick_cmd": f"bash /verif/run.sh {p} quick", "thorough_cmd": f"bash /verif/run.sh {p} thorough",
                   "evidence_file": f"evidence/{p}.json", "technique": TECH.get(p, DEF), "level": "exploration",
                   "level_note": "holds on the executions observed (counts and events in the evidence file); nothing is claimed for inputs the workloads do not reach"})
na = [{"property": p, "reason": "no check built yet"} for p in props if p not in have]
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "One Go harness module (harness/) using only the public API of /repo, rebuilt from /repo's working tree by every check; no hooks in /repo. Replay a violation with: bash /verif/run.sh replay <file>."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks;", len(na), "not applicable")
