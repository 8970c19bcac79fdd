#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the check modules."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = "No claim beyond the executions observed: seeded random and enumerated workloads on the real code, "
CH = {
 "C01": ("online monitor: every bit-stream call shadowed by an exact bit-array model", "each operation of each history is compared with a list-of-bits reference, positions and stream bytes included"),
 "C02": ("monitored close/flush histories with injected stream faults and stand-in streams", "streams record every write, close and fault; the byte image and closed state are judged after every history; write failures are injected at each write call"),
 "C03": ("differential monitor of fixed-point and 6-bit codecs against exact rationals", "values compared as exact fractions and bit counts observed, at all bit phases; names of every length and every foreign character"),
 "C04": ("monitored round trips plus independent variable codec as oracle", "bytes decoded and re-encoded by a codec written from the format, not from the code"),
 "C05": ("sequence histories shadowed by a Python list; equality/hash monitor over value pairs", "every step of every history compared with the list model"),
 "C06": ("round-trip monitor over generated levels, object content compared field by field", "levels at region borders, negative and extreme coordinates, all shapes, entity types and layers"),
 "C07": ("offline checker: independent decoder audits every byte of produced level files", "header, directory, lengths, placement, totals recomputed from decoded content"),
 "C08": ("independent encoder generates legal files; decoded content compared", "versions, emptied slots, duplicate ids, extended names, any order, any offset, region-wise and metadata-only"),
 "C09": ("byte-level monitor of metadata edits and rewrite cycles", "region bytes, directory and next id compared before and after through an independent decoder"),
 "C10": ("round-trip monitor of replays, effective value per frame compared", "run lengths around every split, all versions and player counts"),
 "C11": ("independent replay codec checks produced bytes and generates legal files", "all run splittings, concatenated replays, known and unknown length"),
 "C12": ("fault injection: truncation at every byte and corruption, under a step-budget monitor", "a logical step budget decides hang against slow; every truncation point of many files"),
 "C13": ("history monitor of id allocation", "all ids ever present are tracked through random histories of level edits"),
 "C14": ("identity-tag monitor: references followed before and after remap and merge", "objects carry unique tags, so a reference is judged by the object it reaches"),
 "C15": ("algebra monitor with exact rational arithmetic", "products, sampling, scale, angle and refusals compared with exact matrices"),
 "C16": ("geometry monitor: vertices of every shape moved and matched", "all 21 shapes x 8 orientations enumerated with uniquely marked edge data"),
 "C17": ("history monitor of whole-level motions against independent coordinates", "after each operation every object is compared with the rigid motion"),
 "C18": ("exact area and edge-cover monitor of upscaled tiles", "all shapes x factors 1..9 enumerated, levels with random orientation"),
 "C19": ("independent rule evaluator compared over enumerated and random neighbourhoods", "all shape pairs in all directions enumerated; callbacks and layers random"),
 "C20": ("independent geometric rule evaluator compared edge end by edge end", "random dense patches, all shape pairs around a corner, filth and visibility random"),
 "C21": ("property access monitor over every entity class, user-defined classes included", "documented variable, type and default of every property; registry histories"),
 "C22": ("real command line tool under monitor: files decoded independently, failing updates injected", "JSON conversion, dump/load, edits, from-scratch files, inapplicable documents"),
 "C23": ("real command line tool under monitor, file bytes compared", "extraction, refusal to overwrite, update, failing update, stand-in imaging library"),
 "C24": ("real command line tool under monitor, output decoded and compared with the motion", "every option combination incl. in-place and fractional shifts"),
 "C25": ("conservation checker over converted saves", "all 64 known levels, unknown and repeated records, score books, key counts"),
 "C26": ("pool-of-objects history monitor with full-state vandalism; one-field tile mutations", "every untouched object compared with its last snapshot after each step"),
 "C27": ("table-driven monitor of constants and helper calls", "every enumeration member and table entry, helper histories shadowed by plain data"),
 "C28": ("fault injection at every stream call under state snapshots", "failures at each write, read and seek call of the undisturbed run; later writes compared byte for byte"),
 "C29": ("deterministic thread scheduler switching at dustmaker lines, results compared with solo runs", "seeded switch sequences of two to five tasks, dense and sparse, plus call-wise interleavings in one thread"),
}
FAULT = {"C12": "fault_enumeration", "C02": "fault_enumeration", "C28": "fault_enumeration"}
m = {"version": 1, "setup_cmd": "python3 -B check.py --setup",
     "checks": [{"property": p, "quick_cmd": "python3 -B check.py %s --tier quick" % p,
                 "thorough_cmd": "python3 -B check.py %s --tier thorough" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": "runtime monitoring: " + t, "level": FAULT.get(p, "exploration"),
                 "level_note": NOTE + n + ". Trusts CPython, zlib and the reference models in /verif/vf."}
                for p, (t, n) in sorted(CH.items())],
     "not_applicable": [],
     "notes": "Pure Python: no hooks in /repo; the monitors wrap the public API from outside. Findings: known_findings.txt."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
