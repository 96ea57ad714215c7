#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {
    "T16": "pure functions of their input (macro expansion, debug formatting, size of a value): no schedule, clock, I/O, fault or party they could depend on, so simulation has nothing to decide",
}
TECH = "deterministic simulation with fault injection: seeded search over %s, checked against %s"
T = {
    "S01": ("process crash points, I/O faults and restarts on a simulated disk", "a model of the acknowledged blobs"),
    "S02": ("power cuts with arbitrary loss and reordering of unsynced sectors on a simulated disk", "a model of the synced blobs"),
    "S03": ("process crashes, power cuts and I/O faults on a simulated disk", "a model of the newest committed blob"),
    "S04": ("write, read, page close and restart histories on a simulated disk", "a model of all blobs"),
    "S05": ("injected system call failures, short and interrupted calls on a simulated disk", "a model of all blobs"),
    "S06": ("thread interleavings (locks, calls, basic blocks), faults and crashes", "linearizability of the recorded history"),
    "T01": ("histories, store faults, crashes and power cuts", "an ordered map saved at each persist"),
    "T02": ("histories with shared structure, faults and restarts", "an ordered map saved at each persist"),
    "T03": ("store failures at every call inside persisting", "an ordered map and the tree itself"),
    "T04": ("histories, crashes and imported images", "an independent encoder and decoder of the documented format"),
    "T05": ("histories over memory, stores and restarts", "an ordered map"),
    "T06": ("histories, operand placements and read faults", "the per-key definition on ordered maps and the log of combiner calls"),
    "T07": ("histories, prefixes, operand placements and read faults", "an ordered map"),
    "T08": ("histories, steps of open iterators and restarts", "an ordered map"),
    "T09": ("read faults at every load inside queries", "right answer or error"),
    "T10": ("read faults and failing combiners at every point inside updates", "contents before the call, and a repeated call"),
    "T11": ("sets of unreadable blobs and recorded reads", "the path of the key found by an independent decoder"),
    "T12": ("histories of shared structure and thread interleavings", "the contents at the moment of the snapshot"),
    "T13": ("pairs of histories with equal contents, in memory and stored", "equality of maps and of stored root ids"),
    "T14": ("histories, faults and thread interleavings over a simulated allocator", "an allocation ledger with poison, quarantine and canaries"),
    "T17": ("deaths of the browser worker, rejected and delayed cache calls in a simulated browser", "files as byte vectors and maps of blobs"),
    "T15": ("histories, faults and restarts with recorded reads and writes", "the set of nodes on the touched paths"),
}
NOTE = ("Sampled, not exhaustive: a clean run is evidence for the explored seeds only. The code under test is the unmodified crate, "
        "with its disk, locks and allocator replaced below it; every failing run is minimised and written to a replay file that reproduces it exactly. "
        "Trusted: the simulated disk's crash and power-cut model, the oracle, rustc.")
m = {
    "version": 1,
    "setup_cmd": "./check build",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": "./check %s quick" % p["id"],
            "thorough_cmd": "./check %s thorough" % p["id"],
            "technique": TECH % T[p["id"]],
            "level": "exploration",
            "level_note": NOTE,
        }
        for p in props if p["id"] not in NA
    ],
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "No hooks in /repo: files are intercepted at the libc symbols, locks by a patched parking_lot and futex, memory by the global allocator, and threads between basic blocks by compiler instrumentation chosen in sim/rustc-wrap.sh; the browser package is compiled from its own sources against simulated browser crates in sim/browser/stubs. Replay: ./check replay <file>.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
