#!/usr/bin/env python3
# Writes MANIFEST.json from the table below.
import json
AI = "abstract interpretation of the SSA form (gated values, polyhedral path conditions, loop summaries) against a reference codec interpreted the same way"
note_ai = "Sound for all inputs under the stated assumptions (lengths below 2 GiB, usable logger, non-nil PDU pointer); trusts the analyser's transfer functions, go/ssa and the reference codec in analyzer/spec."
CL = {
 "C01": (AI, note_ai),
 "C02": (AI, note_ai),
 "C03": (AI, note_ai),
 "C04": (AI, note_ai),
 "C05": (AI, note_ai),
 "C06": (AI, note_ai),
 "C07": (AI, note_ai),
 "C09": (AI, note_ai),
 "C08": ("abstract interpretation of the SSA form: panic reachability, recover discipline", note_ai),
 "C10": ("abstract interpretation of the SSA form: bounds on allocation sizes and loop trips under the path conditions that guard them", note_ai),
 "C11": ("abstract interpretation of the SSA form with provenance (which storage may share memory with which argument) and effect tracking", note_ai),
 "C12": ("effect analysis on SSA: stores reachable from exported functions classified by the storage they may reach; reads of mutable globals, clocks, randomness; goroutines", "Every exported function and everything it may call inside the module; standard-library callees are classified by a table, unknown ones are listed."),
 "C14": ("abstract interpretation of the SSA form; validity predicates compared with the codec's own acceptance condition, for each of the 256 tags", note_ai),
 "C15": ("abstract interpretation of the SSA form against reference predicates", note_ai),
 "C16": ("abstract interpretation of the SSA form against reference functions, with provenance for freshness", note_ai),
 "C20": ("abstract interpretation of the SSA form: panic reachability of every renderer", note_ai),
 "C13": ("constant propagation through tables and renderers, compared with the RFC assignments", "Exact for every assigned number and, symbolically, for all unassigned ones; trusts the number tables in analyzer/c_tables.go."),
 "C17": ("lockset typestate analysis on SSA with closures and deferred calls", "All paths of all Tree operations; assumes callers do not reach into nodes concurrently, runtime panics inside the tree code itself are not considered."),
 "C21": ("format-string analysis on SSA with wrapper inference", "Every formatting call site; formats built at run time from non-constant text are only counted."),
 "C23": ("constant propagation through the package initialiser, compared with the MIB registrations", "Exact for every name; trusts the MIB table in analyzer/c_tables.go."),
}
B = "Bounded in shape, unbounded in contents: "
CL.update({
 "C18": ("abstract interpretation of the SSA form over symbolic trees: histories of operations on labelled OIDs compared with a reference set of OIDs", B + "histories of up to four operations from bases covering every branch shape listed in DESIGN.md, the subidentifiers symbolic in ascending order (so for all values); longer histories follow only if the operations depend on the tree through those shapes."),
 "C19": ("abstract interpretation of the SSA form over symbolic trees: every pair of bounds compared with the least leaf of a reference set", B + "trees of the listed shapes with symbolic ascending labels and all bounds over those labels."),
 "C22": ("abstract interpretation of the SSA form over texts given as symbolic segments, against a reference parser", B + "texts of 1..130 parts (the listed counts), each part symbolic in its kind (digits below or above 2^32, empty, other), with and without leading dot."),
 "C24": ("abstract interpretation of the SSA form at fixed slice lengths with symbolic bytes, against reference dumps", B + "lengths 0..33, 64, 100, 130 and all bounds (differences up to 13 x 13), the bytes symbolic."),
})
CL["C25"] = ("abstract interpretation of the SSA form with symbolic contents, against reference texts", B + "OIDs and octets of the listed lengths (in varbinds and ranges up to 2 and 3 subidentifiers), every tag, values of every dynamic type.")
CL["C26"] = ("abstract interpretation of the SSA form with package reflect modelled on statically known types, against a reference text", B + "every params type, OIDs of 0 to 2 subidentifiers, 0 to 2 search ranges and varbinds, depths -3, 0, 1, 2, 7, 8; contents symbolic.")
NA = {}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
todo = "check under construction"
checks = [{"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"./check.sh {p}", "technique": t, "level": "other", "level_note": n} for p,(t,n) in sorted(CL.items())]
na = [{"property": p['id'], "reason": NA.get(p['id'], todo)} for p in props if p['id'] not in CL]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the analyser loads /repo's working tree with an in-memory overlay. Known findings: known_findings.txt."}
json.dump(m, open('/verif/MANIFEST.json','w'), indent=1); open('/verif/MANIFEST.json','a').write('\n')
