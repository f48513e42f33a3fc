#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
OPS = "explicit-state exploration of the real code: "
A = "Exhaustive within the enumerated bounds, on the real code (no model to drift); says nothing beyond the bounds. Trusts the reference model in mc/lab, the Go toolchain and the kernel."
T = {
 "C01": "all operation sequences up to a depth over a small id set, executed on the index and compared with a map",
 "C02": "all configurations x item sets x generator answers (choice tree of the random generator) with a full walk of every forest",
 "C03": "all searches (k x budget x query) on every enumerated index against the stored vectors",
 "C04": "all exhaustive searches on every enumerated index against brute force",
 "C05": "all default-budget searches on every enumerated index",
 "C06": "all items x all positive budgets on every enumerated index, tree walk decides the precondition",
 "C07": "all pairs of budgets and of k on every enumerated index and query",
 "C08": "all contents x completion orders of the workers x save/load chains; answers compared before and after",
 "C10": "all truncation lengths and kinds of bad files x lifecycle states",
 "C14": "breadth-first exploration of the operation sequences of an index against a lifecycle state machine",
 "C15": "all operation sequences up to a depth with open files and mappings observed after each step",
 "C16": "all sequences of searches on one context up to a depth",
 "C17": "all interleavings of the operation sequences of two indexes",
 "C18": "all vector pairs of lattices x lengths x preparation against high precision arithmetic",
 "C19": "all item sets x queries x k against brute force by dot product",
 "C20": "all push/pop sequences up to a depth against a multiset",
 "C21": "all inputs up to a length x all ranges against the specification of sorting",
 "C22": "all draw/reseed/clone sequences up to a depth against an independent implementation",
 "C23": "the full product of the tuning options on every enumerated content",
 "C26": "all pairs of tree and worker counts",
 "C27": "all vector pairs of lattices and prefix lengths against exact arithmetic, at guard pages",
 "C28": "all pairs of small sets in every rotation, all options of the command",
 "C29": "all plug-in variants on every enumerated content",
 "C09": "all crash points (system calls) and all write fault positions of a save, executed on the real code",
 "C24": "all ids and sizes around the 2, 4 and 8 GiB boundaries, executed on sparse memory and files",
 "C25": "all allocation/write/free and open/lookup/close sequences up to a depth against a byte model",
 "C11": "stateless exploration of all thread interleavings (preemption bounded) of the instrumented real build, with a happens-before race monitor",
 "C12": "stateless exploration of all thread interleavings (preemption bounded), canonical forest compared per schedule; all rebuild histories",
 "C13": "stateless exploration of all thread interleavings (preemption bounded) of concurrent searches, with a happens-before race monitor",
}
NOTES = {}
import sys
have = sys.argv[1:] or sorted(T)
m = dict(version=1, setup_cmd="./setup.sh",
  checks=[dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
               evidence_file=f"evidence/{i}.json",
               technique="model checking: " + T[i], level="model_checking",
               level_note=NOTES.get(i, A)) for i in have],
  not_applicable=[dict(property="C30", reason="Recall on typical data is a statistical statement over data distributions: exhaustive enumeration of a bounded space cannot decide it, and any threshold on enumerated data would be arbitrary. The deterministic parts (exactness with full budget, monotonicity in the budget, own vector found) are C04, C05, C06, C07.")],
  notes="No hooks in /repo: what the checks need (scheduling points for C11-C13) is put in by an overlay that is generated from the working tree at build time. Design, bounds, findings: DESIGN.md.")
if len(have) != len(T):
    for i in sorted(set(T) - set(have)):
        m["not_applicable"].append(dict(property=i, reason="check under construction"))
with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(have), "checks")
