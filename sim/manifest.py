#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the scenarios the simulator has."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = json.load(open(V + "/MANIFEST.json"))
have = set(subprocess.run([V + "/sim/target/debug/fcbsim_wasm", "list"], capture_output=True, text=True).stdout.split())
reason = {n["property"]: n["reason"] for n in m["not_applicable"]}
note = m["checks"][0]["level_note"]
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m["checks"] = [
    {
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "technique": "deterministic simulation with fault injection (seeded tape search, minimised replay)",
        "level": "exploration",
        "level_note": note,
    }
    for i in ids if i in have
]
m["not_applicable"] = [{"property": i, "reason": reason.get(i, "check under construction")} for i in ids if i not in have]
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
