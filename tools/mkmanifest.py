#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent
TECH = "deterministic simulation with fault injection: seeded search over "
WHAT = {
    "S01": "thread schedules and cancel instants; invariant on every solver poll",
    "S02": "thread schedules and histories of cancelled, failed and throwing generations",
    "S03": "solver outcomes, iterates and schedules; history compared with the scripted solver",
    "S04": "schedules, callbacks (nesting, throwing, slow) and moves; every delivery compared with the solver state",
    "S05": "virtual clocks (jumps, coarse grains, stalls) and concurrent generations; history check of frame spacing",
    "S06": "thread schedules; happens-before race detection and comparison with solitary runs",
    "S07": "moves, builder reuse and destruction while generators run on other threads",
    "S08": "histories of failed, cancelled and throwing runs of the same generator; comparison with a first run",
    "S09": "the allocation that fails inside each builder call; comparison with a fault-free builder",
    "S10": "the allocation, callback or solver call that fails during generation, with concurrent bystanders",
    "S11": "the element operation that throws inside each operation; comparison with a value-or-error model",
    "S12": "schedules, outcomes and cancels through the foreign-function layer; comparison with the scripted solver",
    "S13": "the points an adversarial solver may return; reference physics as oracle",
    "S14": "the points an adversarial solver may return; reference constraint semantics as oracle",
    "S15": "the points an adversarial solver may return; reference geometry as oracle",
    "S16": "the points an adversarial solver may choose between; order of costs against order of durations",
    "S18": "Rust-facing builder calls, real Rust half included, against an adversarial solver and the reference model",
    "S19": "slow, stalled and imprecise solver runs in simulated time; a solver that honours the limits it is given",
    "S21": "guess points, headings and interval counts, schedules and failed construction; starting point compared with a "
           "reference interpolation",
    "S24": "path descriptions with everything that can coincide or vanish, schedules and iterates; the stand-in evaluates "
           "everything posed at the starting point and at iterates",
    "S17": "schedules and failed construction attempts; starting point compared with a reference builder",
}
NOTE = ("Sampled, not exhaustive: every run is a pure function of its seed, findings replay exactly in fresh "
        "processes. Trusts the simulated Sleipnir and cxx headers (neither is installed here) and the reference "
        "model; interleavings are sequentially consistent, at instrumented accesses and synchronisation calls.")
NA = {
    "S20": "pure functions of their inputs: no schedule, clock, fault or interleaving for a simulation to decide",
    "S22": "a relation between two problem statements with no schedule, fault or solver choice in it; the known "
           "dependence of the time-step bound on module order is described in DESIGN.md",
    "S23": "pure serialisation through the derives of a third-party crate: no nondeterminism, fault or history in it",
}
props = [json.loads(l) for l in (HERE / "properties.jsonl").read_text().splitlines()]
ids = [p["id"] for p in props]
checks = []
for i in ids:
    if i in WHAT:
        checks.append({
            "property": i, "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "python3 check.py %s --thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": TECH + WHAT[i],
            "level": "fault_enumeration" if i in ("S09", "S11") else "exploration", "level_note": NOTE})
assert set(ids) == set(WHAT) | set(NA), set(ids) ^ (set(WHAT) | set(NA))
m = {"version": 1, "setup_cmd": "python3 build.py", "checks": checks,
     "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i in NA],
     "notes": "No hooks in /repo: all seams (clock, locks, threads, allocator, solver) are taken at compile and link "
              "time. replay: python3 replay.py FILE [-v]."}
(HERE / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
