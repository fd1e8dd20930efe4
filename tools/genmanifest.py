#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
done = sys.argv[1:] or [p["id"] for p in props]
TECH = {
    "R02": "runtime monitoring: invariant checks inside every plugin function, and offline linearizability checking (porcupine) of recorded concurrent histories",
    "R13": "Go race detector plus watchdog, overlap and exactly-once monitors on stress histories",
    "R15": "differential runtime oracle (reflect) over generated symbols and targets",
    "R16": "runtime monitor of the dynamic loader and of the copies while files are changed at injected moments",
    "R20": "resource monitors (descriptors, goroutines, heap, weak pointers) on long lives of a host",
    "C01": "differential runtime monitoring: token-level comparison of the compiled sources, and behaviour of built plugins against the original packages",
    "C02": "runtime interrogation of built plugins against an independent model of the sources",
    "C03": "runtime monitoring of a host process that loads rapidly rebuilt real plugins",
    "C04": "fault injection (failing tools, signals at every step) with file-system snapshots and exit-status monitors",
    "C05": "state monitoring: file-system snapshots after every command of generated sequences, and running the registered host",
    "C06": "file-system monitor of the generated build tree against an independent selection model",
    "C07": "exit-status and message oracle over generated placements of the required functions",
    "C09": "monitoring of the go build command, its environment and its tree through a stand-in, and interrogation of really built plugins",
    "C10": "monitoring of overlapping builds through a stand-in for go build, against what each build does alone",
    "C11": "differential runtime monitoring: exit status and contents of real builds against go build and go list on the original packages",
    "C08": "exit-status, resource-limit and file-system monitors over unusable inputs",
}
NOTE = "Every generated case is decided by an oracle independent of the code; reach is bounded by the generated workloads."
checks = []
for p in props:
    i = p["id"]
    if i not in done:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 run.py %s" % i,
        "thorough_cmd": "python3 run.py %s --thorough" % i,
        "technique": TECH.get(i, "runtime monitoring: online trace checkers against a reference model on generated fault-injected histories in virtual time"),
        "level": "exploration",
        "level_note": NOTE,
    })
json.dump({"version": 1, "setup_cmd": "sh setup.sh", "checks": checks,
           "not_applicable": []}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
