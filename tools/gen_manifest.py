#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {}
NOTE = {
 "default": "Seeded search, not proof: a clean run means no violation on the explored sessions. Real scribe, std and syntect code; the kernel (file system, clock), the allocator's contents and other processes are simulated. A crash is a process kill (completed writes survive), not a power loss.",
 "P13": "Seeded search, not proof; few runs per second because each one loads real syntax definitions through syntect's own folder walker. File system simulated, syntect and scribe real.",
 "P21": "Seeded search; differential: every session is executed twice, disturbed and undisturbed, and everything observable is compared. The undisturbed execution is judged by the other properties.",
 "P22": "Seeded search, not proof. The functions asked are pure, but what they are asked about is whatever texts and paths faulty sessions leave behind, and the property is that they follow them.",
 "P26": "Seeded search, not proof. The value types are pure, but the texts they are applied to are what faulty sessions leave in the buffer, read through the buffer at that moment.",
 "P28": "Seeded search, not proof. Where several calls of one operation fail in different ways, any of their errors is accepted; the wording of an error is not judged.",
 "P27": "Seeded search, not proof. The iterator is pure, but the texts it is applied to are what faulty sessions leave in the buffer, read through the buffer at that moment.",
 "P23": "Seeded search, not proof: bounds are generous (a constant plus a multiple of the bytes involved), so slowness is not judged; an operation that makes no system call is declared endless after 30 s of real time and confirmed in a process of its own.",
 "P25": "Seeded search; memory is counted at the allocator the simulator provides, per run and thread. How much is held at a time is not judged, only that it is given back; the C library's own blocks are not counted.",
 "P24": "Seeded search; differential: the session is executed interleaved with another one and alone with the other's disk changes replayed. One thread: sharing across threads is impossible by type (Rc, RefCell).",
 "P19": "Seeded search; the oracle for scopes is syntect's parser run directly over the reference text, so errors inside syntect itself are out of reach.",
 "P15": "Seeded search against a plain-string reference model, under an adversarial allocator. The environment this property depends on is memory (recycled contents, relocation), not files.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]}); continue
    checks.append({
        "property": i,
        "quick_cmd": "./check.sh %s" % i,
        "thorough_cmd": "./check.sh %s thorough" % i,
        "technique": "deterministic simulation with fault injection (seeded sessions, simulated kernel and allocator, reference-model oracle)",
        "level": "exploration",
        "level_note": NOTE.get(i, NOTE["default"]),
    })
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seam is the C library boundary, which the simulator binary interposes. A replay file is re-run with: sim/target/release/dst replay <file>."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1); open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
