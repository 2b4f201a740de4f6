#!/usr/bin/env python3
"""Writes MANIFEST.json from budget.json (which properties have a check)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = json.load(open(V + "/tools/budget.json"))
NOTE = {
 "omp": ("deterministic simulation: seeded scheduling of all threads at memory-access granularity under an own OpenMP runtime, against an independent reference model",
         "Seeded search, not exhaustive: small rasters (up to about 24x24), up to 8 threads, sequentially consistent interleavings (no weak-memory effects). Trusts the reference model in /verif/harness and the simulator. A violation is replayed exactly from its file."),
 "io": ("deterministic simulation: seeded operation histories with injected file and memory faults at the libc and allocator seam, against a reference model",
        "Seeded search over histories and fault positions on small rasters. Faults are injected at the libc boundary (open, read, write, flush, close, seek, short transfers, full disk, file cut short, failing allocations). Trusts the reference model and the simulator."),
 "mpi": ("deterministic simulation: whole MPI job (all ranks, transport, files) in one process under a seeded scheduler with message delay, reordering, back-pressure and file and process faults, against a single-process reference model",
         "Seeded search over layouts, schedules and faults on small rasters (up to 6 ranks, 36 tiles). The MPI library is a model of the standard's guarantees (non-overtaking, eager or rendezvous sends, wildcard matching), not a real one. Trusts the model and the reference."),
}
KIND = {"C01": "mpi", "C02": "mpi", "C03": "mpi", "C04": "mpi", "C05": "io", "C06": "io", "C07": "io", "C15": "io", "C16": "io", "C18": "io", "C19": "io"}
NA = {
 "C30": "Serial depression filling and breaching are pure single-threaded functions of the raster: no schedule, clock, I/O, fault or second party the result could depend on, so a simulator has nothing to decide (their independence of schedule, callers, clock and memory contents is covered by C14 and C17, and the minimal surface as produced by the distributed program by C02).",
 "C31": "Whether the proportions of a flow metric are right is a pure function of a 3x3 neighbourhood; the schedule-dependent part (same result on every schedule) is C08, and that accumulated flow is conserved is C09.",
 "C32": "Terrain-attribute formulas are pure functions of a 3x3 neighbourhood; only their independence of schedule can be simulated, which C08 does.",
 "C33": "Geometric edits are pure single-threaded functions of one raster, without concurrency, time, I/O or faults; their behaviour when memory runs out is C16.",
}
LATER = {}
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    if p in B:
        t, n = NOTE[KIND.get(p, "omp")]
        checks.append({"property": p, "quick_cmd": "tools/check run " + p, "thorough_cmd": "VERIF_TIER=thorough tools/check run " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": B[p].get("technique", t), "level": "exploration", "level_note": B[p].get("note", n)})
    else:
        na.append({"property": p, "reason": NA.get(p, "No check has been built for it yet; it is decidable by simulation in principle.")})
m = {"version": 1, "setup_cmd": "tools/check setup",
     "hooks": {"guard": "none", "enable": "No hook is needed in /repo: the seams are the OpenMP, MPI, libc, allocator and sanitizer-callback ABIs, replaced when /verif compiles and links /repo's sources.", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Every check builds the simulator and /repo's sources itself (a few seconds), then searches for the time in tools/budget.json. tools/check replay FILE reproduces a reported violation."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
