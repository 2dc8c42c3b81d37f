#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the properties the harness registers."""
import json, re, subprocess, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = "".join(open(f).read() for f in glob.glob(root + "/harness/p_*.go"))
claimed = sorted(set(re.findall(r'register\(&Prop\{\s*ID:\s*"(C\d\d)"', src)))
race = set(re.findall(r'ID:\s*"(C\d\d)"[^{}]*?Race:\s*true', src, re.S))
props = {}
for l in open(root + "/properties.jsonl"):
    p = json.loads(l)
    props[p["id"]] = p
TECH = {
 "default": "runtime monitoring: online oracle against an independent reference over generated and hostile executions",
 "C20": "runtime monitoring: recorded multi-party protocol runs judged by an independent verifier",
 "C23": "runtime monitoring: system random source replaced by a recording one; offline statistics over recorded outputs",
 "C26": "runtime monitoring: differential oracle (independent codec) over message objects with random histories",
 "C27": "runtime monitoring with fault injection: fragmented, corrupted and truncated transports, exactly-once/ordering checker over recorded deliveries",
 "C28": "race detector plus offline exactly-once/order checker over recorded event logs of concurrent connections with injected delays",
 "C29": "runtime monitoring with fault injection: local server that records requests and answers with hostile responses",
 "C30": "race detector over stress workloads, results compared with sequential ones",
 "C31": "runtime monitoring: guarded argument memory and repeat-read monitors around every public operation",
 "C32": "runtime monitoring: panic, allocation and time monitors under structure-aware mutation of every decoder's input",
}
LEVEL = "Every execution is judged by an oracle independent of the code; the guarantee covers the executions observed (deterministic in the seed), not all inputs."
checks = []
for id in claimed:
    checks.append({"property": id, "quick_cmd": f"./check.sh {id} quick", "thorough_cmd": f"./check.sh {id} thorough",
                   "technique": TECH.get(id, TECH["default"]), "level": "exploration", "level_note": LEVEL})
na = [{"property": id, "reason": "check not built yet"} for id in props if id not in claimed]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
open(root + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
print(len(claimed), "claimed;", [n["property"] for n in na], "not")
