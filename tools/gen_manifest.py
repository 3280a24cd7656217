#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
REF = "Exhaustive within the stated bounds; assumes the reference model refaper.rs (written from X.691) is right. "
T = {
 "C01": ("explicit-state enumeration of constraint x value x bit position, compared with a reference X.691 model", REF + "Trusts that behaviour is uniform between the thresholds of the lattice."),
 "C02": ("exhaustive enumeration of operation sequences up to a depth on the real codec", REF + "Depth 3 (thorough 4) over 52 typed values, plus every single value of the lattice at every bit position."),
 "C03": ("exhaustive enumeration of short inputs and of all mutants of valid encodings on the real decoders, with allocation and time budgets", "Complete for inputs of up to 2 octets (thorough 3) on 87 primitive forms at 8 bit positions; structured beyond. Allocation budget 128 KiB + 512 x input."),
 "C04": ("exhaustive enumeration of short inputs and of all mutants of valid encodings, compared with a reference decoder", REF),
 "C05": ("exhaustive enumeration of constraint x out-of-constraint value, also nested in derived types", REF),
 "C06": ("fault enumeration: every cut point of every enumerated encoding", REF),
 "C07": ("enumeration of string lengths around every fragment boundary x constraint x type, compared with a reference model", REF),
 "C08": ("explicit-state enumeration of sequence shapes x presence subsets x values on derived codecs, compared with a reference model", REF),
 "C09": ("explicit-state enumeration of alternatives counts x indices x bit patterns on derived codecs, compared with a reference model", REF),
 "C10": ("explicit-state enumeration of size constraints x counts x element types on derived codecs, compared with a reference model", REF),
 "C11": ("explicit-state enumeration of key x content x surrounding on derived codecs, compared with a reference model", REF),
 "C12": ("explicit-state enumeration of extension addition patterns written by a model peer, decoded by derived codecs", REF),
 "C13": ("explicit-state enumeration of operation histories on the real codec buffer, compared step by step with a bit-string model", "Complete for the stated operations up to the depth in the evidence; the bits each write produces come from the reference encoder of C01."),
}
try:
    exec(open(root + "/tools/manifest_k.py").read())
except FileNotFoundError:
    pass
NA = globals().get("NA", {})
m = {
 "version": 1,
 "setup_cmd": "./check setup",
 "checks": [{"property": p, "quick_cmd": f"./check {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check {p}",
             "evidence_file": f"evidence/{p}.json", "technique": T[p][0], "level": "model_checking", "level_note": T[p][1]} for p in props if p in T],
 "not_applicable": [{"property": p, "reason": NA.get(p, "not yet built: the check is under construction")} for p in props if p not in T],
}
if "HOOKS" in globals(): m["hooks"] = HOOKS
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
