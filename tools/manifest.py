#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = "deterministic simulation with fault injection (seeded search over schedules and faults)"
NOTE = ("Seeded sampling of executions, not exhaustive: holds on every run explored (see the evidence for how many). The library runs unmodified on a "
        "simulated clock, network, scheduler and faulty disk; trusted are the simulator's seams (overlay of the Go standard library), its models of "
        "servers and disk, and the oracle. Every violation is minimised and replayed in a fresh process before it is reported. ")
EXTRA = {
    "C01": "Oracle: request logs of the simulated servers against the order in the registry document and the outcome each server really delivered.",
    "C02": "Oracle: error kind, object and per-server records against what servers and bootstrap service really sent.",
    "C03": "Oracle: simulated time of return and of each contact against deadline or cancellation; answers completed before it must be returned.",
    "C04": "Oracle: age (since saved) and existence of the document each answer came from; documents carry unique servers.",
    "C05": "Oracle: bootstrap request log against a model of which fresh documents are certainly at hand.",
    "C06": "Oracle: errors have a cause and causes are reported; cache bytes and registry content against complete documents; final fault-free phase must succeed.",
    "C07": "Oracle: the cache directory is probed after every mutating call and crash; all documents must be complete; after restart lookups succeed.",
    "C08": "Oracle: no answer or accessor result from a document when a certainly later save was complete before the call began.",
    "C09": "Oracle: provenance of answers and cached bytes by service and registry.",
    "C10": "Oracle: reference matcher over the document in force; request URLs seen by the servers.",
    "C11": "Oracle: deep comparison of request, question and registries before and after; repeated requests see the same URLs.",
    "C12": "Oracle: bodies handed out by the transport are closed when the call returns.",
    "C13": "Oracle: exit status, stdout and stderr against what servers sent and what could be written; verbose runs against plain ones.",
    "C14": "Oracle: stdout against the body of the answering server and a reference rendering of it (text, whois, Printer options).",
    "C15": "Oracle: certificate defects of each contacted server against the use of its replies and the requests it saw.",
    "C16": "Oracle: every file system call of the command against the paths named by arguments and the default cache directory.",
    "C17": "Oracle: Go race detector on seeded interleavings; results equal those of the same operations run alone.",
    "C18": "Oracle: a register model with exact timestamps, several cache objects on a directory.",
    "C19": "Oracle: every cut, reset or corrupted reply must count as failed; complete ones give the object sent whatever the framing.",
    "C20": "Oracle: a schema-driven model of the JSON sent (sim/model.go) against the object returned and its DecodeData; Byzantine servers within failover sequences.",
    "C21": "Oracle: request lines, parameters and credentials as the simulated servers received them, decoded, against the request made.",
    "C22": "Oracle: reference classification against requests seen by bootstrap service and servers.",
    "C23": "Oracle: a jCard model of the bytes sent against the card returned and all its accessors.",
    "C24": "Oracle: lines of the real output against the reference rendering; strings sent carry would-be forged lines.",
}
NA = {}
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "none in /repo: the seams are in a build overlay of the Go standard library (tools/simbuild.py)",
              "enable": "go build -overlay .build/overlay.json, done by check.py", "source_commits": []},
    "checks": [{
        "property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"], "technique": T, "level": "exploration", "level_note": NOTE + EXTRA[p["id"]],
    } for p in props if p["id"] in EXTRA and p["id"] not in NA],
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
    "notes": "check.py --replay FILE executes a replay file again. known-findings.txt lists the defects found and repaired.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
ids = {p["id"] for p in props}
assert ids == {c["property"] for c in m["checks"]} | set(NA), ids
