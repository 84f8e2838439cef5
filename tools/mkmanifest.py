#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IDS = [f"P{i:02}" for i in range(1, 23)]
BASE = ("Every generated call sequence is executed on the real library and compared natively with look-alikes of "
        "the specification; all deviations and a stratified sample of the rest are recorded and judged by TLC "
        "against the TLA+ contract of each call (spec/Diffy.tla via spec/Trace.tla). ")
TRUST = ("Trusts TLC, the projection of public API objects in harness/src/api.rs, and for sessions TLC does not "
         "see the native look-alikes; bounded by the generated inputs (exhaustive small scopes, random larger ones).")
NOTE = {
    "P01": "The session remembers which texts a patch was made from, so applying it there has exactly one allowed result.",
    "P02": "Rev(patch) is defined in the specification; the reverse applied to the new text must give the old one.",
    "P03": "Truthful(patch, old, new) is evaluated on every recorded creation.",
    "P04": "ContextRule is evaluated with unbounded context represented by clamped numbers.",
    "P05": "The edit distance is computed in the specification by dynamic programming and compared with the number of changes; for texts too large for that a known number of changes bounds it.",
    "P06": "The abstract value of the parsed patch must be the one printed, and reported equality must be equality of abstract values.",
    "P07": "Format(patch, options) is written in the specification; the printed lines must be those.",
    "P08": "A reader of the format, one line at a time, is written in the specification; documents it accepts must be accepted with the same contents.",
    "P09": "Documents the specification's reader refuses must be refused; doubtful ones are left open.",
    "P10": "The result must be explained by replacing disjoint blocks of matching lines.",
    "P11": "The set of nearest matches is defined in the specification; result and failing hunk number must be among its outcomes.",
    "P12": "A clean result must be explained by some pair of longest alignments of the ancestor with the sides, with nothing else changed.",
    "P13": "A conflicting result must be explained region by region by some pair of longest alignments, each section complete.",
    "P14": "The conflict regions are re-rendered from the explained merge, and merges of one triple under all styles and lengths are related.",
    "P15": "The merge of the exchanged sides must be the mirror image of the first.",
    "P16": "The session remembers all calls: the same call through the other interface must have the same result.",
    "P17": "Any panic, abort or hang is a step no action of the specification explains; inputs too large for TLC are executed natively and recorded as calls that returned or did not.",
    "P18": "The session remembers all calls: repeated later, on concurrent threads and in another process they must have the same results; patches are re-examined after use.",
    "P19": "StripStyle(coloured) = plain is evaluated on pairs of prints of the same patch.",
    "P20": "Quoting and reading of names are written in the specification and compared for creation, printing and parsing.",
    "P22": "What a writer was given must be the beginning of every remembered print of the patch, all of it when the call succeeds; a failing call must report the writer's own failure.",
    "P21": "Provenance of every patch is part of the state and survives printing, parsing and reversing; patches of separate regions must commute.",
}
checks = []
for i in IDS:
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i} quick",
        "thorough_cmd": f"python3 check.py {i} thorough",
        "technique": "TLA+ specification checked with TLC; traces of the real code validated against it",
        "level": "model_checking",
        "level_note": BASE + NOTE[i] + " " + TRUST,
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3 check.py build",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks: the public API exposes the whole abstract state (texts, patches, documents, results). See DESIGN.md.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
