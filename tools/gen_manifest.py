#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (the committed file is the output of this script)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
hooks = [l.split()[0] for l in subprocess.check_output(
    ["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()
    if "imulation hook" in l]
NET = ("Seeded search over scenes, histories, schedules and faults; a clean run is evidence, not proof. Trusted: the harness's "
       "reference models and canonical forms, Bevy, ureq, and the stub HTTP server in front of the game's remote channel "
       "(the repository's own code all runs for real, single-threaded executors).")
GAME = ("Seeded search over game histories (world changes, asset states, requests); a clean run is evidence, not proof. "
        "Trusted: the harness's model of the game world and Bevy itself; one game node, single-threaded executor.")
LEVEL = {}
exec(open(os.path.join(HERE, "tools", "manifest_notes.py")).read())
m = {
    "version": 1,
    "setup_cmd": "./build.sh",
    "hooks": {"guard": "--cfg rerecast_sim",
              "enable": "RUSTFLAGS='--cfg rerecast_sim' (env.sh), harness crates in /verif/sim with path dependencies on /repo",
              "source_commits": hooks},
    "checks": [], "not_applicable": [],
    "notes": "Every check: ./check.sh ID builds the simulator from /repo's working tree and runs the seeded search; a violation's replay file is re-executed with './build/target/debug/rrsim replay FILE' (C11: rrsim_avian).",
}
for i in ids:
    if i in CHECKS:
        m["checks"].append({
            "property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection: " + CHECKS[i][0],
            "level": "exploration", "level_note": CHECKS[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT[i]})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
