#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. A property is claimed when it has an entry in CLAIMS."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "static analysis: abstract interpretation of the SSA form (finite bit/provenance domain, trace partitioning, no execution, no solver)"
AIG = "static analysis: abstract interpretation of the SSA form with an abstract goroutine scheduler and vector-clock happens-before analysis (no execution, no solver)"
CLAIMS = {
 "C01": (AI, "Complete for every bit of a 96-bit tag, per scheme and partition; rests on the analyser's models of strings, fmt and math/big."),
 "C02": (AI, "Complete for ID lengths 0-62 bytes and PC lengths 0-4 and 8; other lengths are not analysed."),
 "C03": (AI, "Complete for ID lengths 1-62 bytes and all ten AFIs."),
 "C04": (AI, "Complete for field contents at the analysed digit and character counts; the counts themselves are enumerated, not unbounded."),
 "C05": (AI, "Complete for field contents at the analysed digit and character counts; random field values are the arbitrary value of the call that makes them."),
 "C07": (AI, "Complete for ID contents at the analysed filter lengths, offsets and ID lengths, which are enumerated."),
 "C10": (AI, "Complete for filter contents at the analysed trie histories: subscription counts, filter lengths and operation sequences are enumerated."),
 "C11": (AI, "Complete for filter and ID contents at the analysed trie shapes, which are enumerated."),
 "C12": (AI, "Complete for filter contents at the analysed tree histories: subscription counts, filter lengths and operation sequences are enumerated."),
 "C13": (AI, "Complete for filter and ID contents at the analysed tree shapes, which are enumerated."),
 "C08": (AI, "Complete for filter contents at the analysed tree shapes and subscription sets, which are enumerated; encoding/gob is a model of the analyser."),
 "C09": (AI, "Complete for the analysed tree shapes: every element is damaged or cut in turn; encoding/gob is a model of the analyser."),
 "C14": (AI, "Complete for filter contents at the analysed histories, which are enumerated."),
 "C15": (AI, "Complete for the contents of the analysed patterns, letter cases and malformed forms; the forms are enumerated. One known finding."),
 "C16": (AI, "Complete for filter and ID contents at the analysed histories, which are enumerated."),
 "C17": (AI, "Complete for filter contents at the analysed operations, on every pair of engines."),
 "C18": (AI, "Complete for filter contents at the analysed histories, with each map iteration taken in three orders."),
 "C06": (AI, "Complete for field contents at the analysed digit and character counts."),
 "C19": (AI, "Complete for the registry, the type tags, the priority table and the monitoring codes of the current tree."),
 "C20": (AIG, "Happens-before analysis of the accesses met on the analysed schedules and histories (enumerated); library types are models of the analyser."),
 "C21": (AIG, "Complete for the analysed lifecycle histories and schedules, which are enumerated; the state machine library is analysed from its source."),
 "C22": (AIG, "Complete for message contents on the analysed histories and schedules, which are enumerated."),
 "C23": (AIG, "Complete for search outcomes on the analysed histories and schedules, which are enumerated; the clock is an arbitrary value."),
 "C24": (AIG, "Complete for header and body contents at the analysed message sequences, lengths and failure points, which are enumerated; net, the LLRP decoder and the command line are models of the analyser."),
 "C25": (AIG, "Complete for message contents on the analysed message sequences, which are enumerated; the database client is a model of the analyser."),
 "C26": (AIG, "Complete for the analysed acquisition and failure points, which are enumerated; net, spdystream and os are models of the analyser."),
 "C30": (AIG, "Complete for option contents: every option is an unconstrained value followed to the part it configures."),
 "C27": (AI, "Complete for filter and ID contents on the analysed histories, which are enumerated. One known finding."),
 "C31": (AI, "Complete for field contents at the analysed digit and character counts; ISO IDs of up to 31 words."),
 "C32": (AI, "Complete for the contents of texts of the analysed lengths, which are enumerated."),
 "C33": (AI, "Complete for filter and ID contents of the analysed filter sets (lengths and offsets), which are enumerated."),
 "C35": (AIG, "Bounded by the enumerated scenarios and schedules (first-in, last-in, eager and drawn schedules with interruptions at every lock and channel operation)."),
 "C36": (AI, "Bounded by the enumerated filter sets (all sets of up to three filters of up to three bits, and sets over several bytes) and histories."),
 "C34": (AI, "Complete for filter contents at the analysed lengths and offsets, which are enumerated."),
}
NA = {
 "C28": "the tree contains no report delivery code (report URIs are only returned by the engines), so there is nothing in the source to analyse",
 "C29": "which engine is fastest depends on run-time durations, which no static argument bounds",
}
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
for p in props:
    if p not in CLAIMS and p not in NA:
        NA[p] = "its static check is not built yet"
m = {
 "version": 1,
 "setup_cmd": "./check.sh build",
 "checks": [{
   "property": p,
   "quick_cmd": f"./check.sh {p} quick",
   "thorough_cmd": f"./check.sh {p} thorough",
   "evidence_file": f"evidence/{p}.json",
   "technique": CLAIMS[p][0],
   "level": "other",
   "level_note": CLAIMS[p][1],
 } for p in props if p in CLAIMS],
 "not_applicable": [{"property": p, "reason": NA[p]} for p in props if p not in CLAIMS],
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not applicable")
