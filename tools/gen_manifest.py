#!/usr/bin/env python3
"""Source of MANIFEST.json (run by hand)."""
import json, sys
sys.path.insert(0, "/verif")
import check
NOTE = {
 "C01": "Absence of panics, overflows, out-of-bounds accesses and progress are obligations of every function (exec mode of Verus checks each arithmetic operation, index, slice and unwrap).",
 "C02": "Postcondition of Chunk::find_chunk_edge over a spec machine; base lemma derives the independence for every pair of buffer histories from it.",
 "C03": "Postcondition of ChunkIncr::push over a spec machine; base lemma derives the independence for every pair of divisions from it.",
 "C04": "Both interfaces of each algorithm are proved against one spec machine; FastCDC's incremental deviation is in the contract and listed as a known finding.",
 "C05": "Contracts on IterSlices/IterSlicesStrict over ghost views of the rest of the data and the chunker.",
 "C06": "Each machine's restart is proved to be its initial state, and both interfaces are proved to implement the machine.",
 "C07": "Closed form of each rolling hash as a function of the window, proved as an invariant of the machine that both interfaces implement.",
 "C08": "Limits proved as lemmas over the machine each interface implements.",
 "C09": "Bounds of the discard count in the postcondition of find_chunk_edge.",
 "C20": "Generic over any RangeBounds and item with a spec order.",
 "C21": "Postconditions of the constructors.",
 "C22": "Table entries compared with constants committed in contracts/tables.rs, index by index.",
}
M = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "checks": [], "not_applicable": [],
     "notes": "One driver, check.py, for all properties; DESIGN.md says what each run proves. No hooks in /repo are needed."}
for l in open("/verif/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    M["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --thorough" % i,
      "technique": "contract-based deductive verification (Verus) of functions extracted mechanically from /repo on every run",
      "level": "proof",
      "level_note": NOTE.get(i, "Closed form of the cut rule as a spec machine; both interfaces are proved to implement it.") +
        " Modules: base, %s. Unbounded in input, history and configuration (sane ones, see DESIGN.md). Trusted: Verus, Z3, vstd, the extraction, and the assumed specifications the evidence lists. Functions whose changed shape the contracts no longer fit are reported as undecided and only replayed (bounded) in that run." % ", ".join(check.PROPS[i][0])})
json.dump(M, open("/verif/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(M, json.load(open("/root/.vp/MANIFEST.schema.json")))
