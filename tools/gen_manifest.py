#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("fuzzing (structured, mutational, adversarial sizes) with crash, hang and memory limits as oracle", "inputs up to about 1 MB in processes of their own with a 2 MB stack, 3 GB of memory and 60 s of CPU time per case"),
 "C02": ("differential property-based testing against a reference grammar, token and byte mutation", "trusts the harness's independent lexer and parser"),
 "C03": ("property-based round trip: model to text to JSON, compared with the reference tree", "trusts the harness's renderer and reference tree, which are checked against each other in every case"),
 "C04": ("differential property-based testing: viable-prefix position of a reference parser", "trusts the harness's independent lexer and parser"),
 "C05": ("metamorphic testing: one token sequence in two layouts", "the relation needs no model; line mapping through token positions"),
 "C06": ("property-based testing with a generator of well-formed models", "models are correct by construction, re-checked by the reference semantics"),
 "C07": ("fault-injecting property-based testing against reference semantics", "trusts the reference semantics; exact error only for single faults"),
 "C08": ("fault-injecting property-based testing against reference semantics", "trusts the reference semantics; exact error only for single faults"),
 "C09": ("fault-injecting property-based testing against reference semantics", "trusts the reference semantics; exact error only for single faults"),
 "C10": ("fault-injecting property-based testing against reference semantics", "trusts the reference semantics; exact error only for single faults"),
 "C11": ("fault-injecting property-based testing against reference semantics", "trusts the reference semantics; exact error only for single faults"),
 "C12": ("fault-injecting property-based testing against reference semantics", "trusts the reference semantics; exact error only for single faults"),
 "C13": ("fault-injecting property-based testing of problems against reference semantics", "trusts the reference semantics"),
 "C14": ("property-based testing of hierarchies against a reference fixpoint", "trusts the reference fixpoint"),
 "C15": ("property-based testing of hierarchies against a reference fixpoint", "trusts the reference fixpoint"),
 "C16": ("property-based testing of hierarchies against exhaustive cycle search, and validation of the printed cycle", "the class is compared exactly where simple cycles decide it (stated in DESIGN.md), otherwise the printed cycle is validated"),
 "C17": ("differential repetition in one process and across processes", "no model needed"),
 "C18": ("metamorphic testing: random reordering", "no model needed beyond the single-fault condition"),
 "C19": ("metamorphic testing: one structure under two sets of names", "no model needed"),
 "C20": ("differential property-based testing over the protocol: server against library verdict", "the client speaks JSON-RPC over pipes to the real server binary"),
 "C21": ("stateful model-based testing of message histories, step by step and pipelined", "model: map from document to text, plus the disk"),
 "C22": ("differential property-based testing: the real binary against the library", "runs the binary in a scratch folder"),
 "C23": ("metamorphic property-based testing of pairs of files", "no model needed"),
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "bash run.sh build",
 "checks": [
  {
   "property": p["id"],
   "quick_cmd": "bash run.sh %s quick" % p["id"],
   "thorough_cmd": "bash run.sh %s thorough" % p["id"],
   "evidence_file": "evidence/%s.json" % p["id"],
   "technique": T[p["id"]][0],
   "level": "exploration",
   "level_note": "Generated-input search, no proof: a violation is real (shrunk and replayed), silence covers the cases counted in the evidence. " + T[p["id"]][1][0].upper() + T[p["id"]][1][1:] + ".",
  } for p in props],
 "not_applicable": [],
 "notes": "No hooks in /repo: everything goes through the library's public functions and the two binaries, built from /repo's working tree. The commits in /repo are 'fix:' commits, listed in known-findings.txt.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
