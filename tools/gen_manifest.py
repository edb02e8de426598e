#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
checks = [
 ("C01", T + "seeded schedules of threads over a graph of versions, snapshots re-read at every operation boundary"),
 ("C02", T + "seeded schedules, every list and stack operation against a sequence model"),
 ("C03", T + "seeded schedules, every queue operation against a sequence model"),
 ("C04", T + "seeded schedules, every vector operation against an array model"),
 ("C05", T + "seeded schedules and adversarial hashers, every hash map/set operation against a dictionary model"),
 ("C06", T + "seeded schedules, every ordered map/set operation against a dictionary model"),
 ("C07", T + "seeded schedules with iterators paused and abandoned between steps, against the model's sequence"),
 ("C08", T + "seeded schedules with panicking callbacks and destructors, per-element ledger of live references"),
 ("C09", T + "long chains released by interleaved threads on measured simulated stacks"),
 ("C10", T + "allocation failures and callback panics inside deriving and reading operations, all versions re-read"),
 ("C11", T + "callback panics inside in-place operations, old-or-new oracle"),
 ("C12", T + "own steps counted under stalled and interleaved threads, against documented bounds"),
 ("C13", T + "failing, short and interrupted sinks, prefix and round-trip oracle"),
 ("C14", T + "truncated, corrupted, lying and failing sources, reference decoder and element ledger"),
 ("C15", T + "simulated work-stealing pool under rayon, exactly-once ledger, panicking closures"),
 ("C16", T + "seeded schedules, equality, order and hash of differently built collections against content"),
 ("C17", T + "lying, resuming and panicking iterators, one-by-one model and element ledger"),
 ("C18", T + "node allocations and element copies counted per operation under interleaved sharing"),
 ("C20", T + "literals whose arguments interleave and panic, against builder calls and an evaluation and element ledger"),
 ("C21", T + "the same seeded runs executed in the std and the no_std build, outcomes and event logs compared"),
 ("C22", T + "seeded growing and shrinking under interleaved sharing, nodes and bytes given back on release against bounds of the content"),
]
na = [
 ("C19", "Which instantiations are Send or Sync is decided by the compiler alone: nothing runs, so there is no schedule, fault or history to simulate."),
]
json.dump({
 "version": 1,
 "setup_cmd": "./check build",
 "checks": [dict(property=p, quick_cmd=f"./check {p} quick", thorough_cmd=f"./check {p} thorough", technique=t, level="exploration",
   level_note="A seeded sample of operation histories, schedules and fault placements on the real code over a simulated pointer kind; sequentially consistent interleavings only. See DESIGN.md.") for p, t in checks],
 "not_applicable": [dict(property=p, reason=r) for p, r in na],
}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
