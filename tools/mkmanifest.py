#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = "deterministic simulation with fault injection: seeded search"
MIRI = " A share of the runs is repeated under Miri, where undefined behaviour, data races and uninitialised reads are violations in themselves."
C = {
 "C01": ("fault_enumeration", F + " over (type, document, hasher), each with every fault point of the run",
   "Within each sampled run every participant callback, destructor and hash or comparison is made to fail in turn; which types and documents are tried is sampled by seed. Trusts the participant ledger, the checking allocator and std." + MIRI),
 "C02": ("fault_enumeration", F + " over trees of serializing participants, each with every panic point of the run",
   "Every begin, next, key-format and destructor call of a sampled tree panics in turn; trees are sampled. Trusts the ledger and the checking allocator." + MIRI),
 "C03": ("fault_enumeration", F + " over (type, document), an error at every participant callback",
   "Errors are enumerated per run (capped per document), runs are sampled. Oracle: reference decoder in the harness."),
 "C04": ("fault_enumeration", F + " over (type, document), call history against a reference walk, cut at every callback",
   "Runs are sampled, cut points enumerated. Oracle: reference walk in the harness."),
 "C05": ("fault_enumeration", F + " over trees of serializing participants, call history and text against a reference",
   "Runs are sampled, panic points enumerated. Oracle: independent RFC 8259 reader and the tree itself."),
 "C06": ("exploration", F + " over records, journals and clusters with torn and lost writes",
   "For the records sampled every cut byte is tried; disks and clusters are sampled by seed."),
 "C07": ("exploration", F + " over documents damaged by a faulty store or link",
   "Sampled damage; oracle: independent RFC 8259 reader and per-type decoder in the harness. Floats are compared within four units in the last place."),
 "C08": ("exploration", F + " over nesting patterns, uses and abort points, with the stack as a measured resource",
   "Each sampled pattern is executed shallow and deep and its exact stack use compared (slack 4 KiB over a factor of 20 or more in depth)."),
 "C09": ("exploration", F + " over schedules of concurrent and nested callers",
   "Every outcome is compared with the same call run alone. Switch points are callbacks and allocations; Miri preempts anywhere." + MIRI),
 "C10": ("exploration", F + " over histories of failing calls followed by reference calls",
   "Each reference call must give the result of a fresh process and all memory must have come back." + MIRI),
 "C11": ("exploration", F + " over hash seeds, member orders and repeated members",
   "Oracle: reference model of maps in the harness."),
 "C12": ("exploration", F + " over versions of a type on a lossy network in rolling upgrade",
   "Oracle: per-type reference decoder in the harness."),
 "C13": ("exploration", F + " over relay chains and clusters with loss, duplication, delay, partitions and crashes",
   "Values received are compared with values sent; floats within four units in the last place per hop."),
 "C14": ("exploration", F + " over operation histories with panicking callbacks and abandoned iterators",
   "Each step is compared with a list / ordered-map model." + MIRI),
 "C15": ("exploration", F + " over hostile and torn inputs with a simulated CPU clock and a metered allocator",
   "Bounds are linear in the bytes of the input. Time is simulated: every basic block of the library, the harness types and std ticks a clock, block copies tick by their length; the worst measured is under a third of the bound. Memory per byte is bounded per type. Hash-map types are judged but kept out of the recorded history."),
 "C16": ("fault_enumeration", F + " over workloads, each with every allocation refused in turn",
   "Allocation indices are enumerated per run (capped), workloads are sampled. Assumes the unwinding out-of-memory policy. Known limits of std collections under refused allocations are excluded by name in DESIGN.md." + MIRI),
 "C19": ("exploration", F + ", every run executed in two builds, with and without std, and the recorded histories compared",
   "Runs are sampled from the scenarios of C01 to C07, C11 to C14 and C20 without hash maps. A library that does not compile without std is a violation too."),
 "C20": ("fault_enumeration", F + " over values and sinks, each with a refusal, a short write and a panic at every write",
   "Values and sinks are sampled, fault points enumerated. Oracle: independent model of the printed form in the harness."),
}
NA = {
 "C17": "The quantifier is over programs given to a procedural macro at compile time; there is no schedule, fault, clock or history in it, so nothing for a simulator to decide.",
 "C18": "A pure function of one number token: no fault, schedule or history. (C07 and C13 compare floats with a four-ulp tolerance in passing, but that is input sampling and is not claimed as deciding this property.)",
}
m = {
 "version": 1,
 "setup_cmd": "./check.sh build",
 "checks": [
  {"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
   "technique": t, "level": l, "level_note": n} for p, (l, t, n) in sorted(C.items())],
 "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
 "notes": "One simulator for all properties: /verif/sim (Rust, path dependency on /repo, no hook needed). Replay a violation with ./check.sh replay FILE. Genuine defects: known-findings.txt.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
