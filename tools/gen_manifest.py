#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
T = {
 "codec": ("explicit-state exploration of codec inputs against a layout model, every trace replayed on the real code",
   "Exhaustive over every type of the base crate within the bounds in the evidence (field values, lengths, buffer sizes, prefixes, byte deviations). Trusts the hand-written layout model of the TPM 2.0 Part 2 structures."),
 "derive": ("explicit-state exploration of type shapes x values x buffers against a layout model, replayed on the derived code",
   "Exhaustive over the enumerated grammar of structure and union definitions; shapes outside it are not covered."),
 "core": ("explicit-state exploration of values, limits and buffers against a reference model, replayed on the real code",
   "Exhaustive within the bounds in the evidence (whole 16/32-bit domains where feasible). Trusts the reference model written from the specification."),
 "client": ("explicit-state exploration of command/session/response histories with a model TPM, replayed on the real client",
   "Exhaustive over commands, session lists and response deviations within the bounds in the evidence. The peer is a model transport."),
 "tcp": ("stateless model checking of the real TCP code under a simulated network (all splits, interruptions and faults up to a deviation bound)",
   "System calls are interposed beneath the unmodified standard library; exhaustive over histories and network behaviours within the bounds in the evidence. Trusts the simulated stream-socket semantics."),
 "server": ("explicit-state exploration of request/buffer/generator-outcome histories with a reference model, replayed on the real code",
   "Exhaustive over request shapes, buffer sizes, generator outcomes and histories within the bounds in the evidence. Trusts the reference model."),
}
def crate(p):
    n = int(p[1:])
    if n == 7: return "derive"
    if n in (8, 9, 21, 25): return "core"
    if n in (10, 11, 12): return "client"
    if n in (13, 14, 22): return "tcp"
    if n in (15, 16, 17, 18, 19, 24): return "server"
    return "codec"
checks = []
for l in open("properties.jsonl"):
    p = json.loads(l)["id"]
    t, n = T[crate(p)]
    checks.append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
                   "technique": "model checking: " + t, "level": "model_checking", "level_note": n})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: all checks use public items (the TCP checks interpose system calls in the harness). Known findings and repaired defects: KNOWN_FINDINGS.txt; details in DESIGN.md."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
