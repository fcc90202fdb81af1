#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand, output committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = "TLA+ specification model-checked with TLC; traces of the real code, replayed from the specification and random, validated against it by TLC"
NOTES = {
 "C01": "Round trips of random values of ~220 types and of every boundary value the specification generates are judged by the TLA+ codec; trusts the harness's projection of values and covers the histories recorded, not all values.",
 "C02": "Bytes produced for random values and for every generated boundary value are compared with the TLA+ codec, an independent definition of the format; 64-bit little-endian host.",
 "C03": "Declared maxima of every type are compared with MaxSize of the specification, which TLC shows to bound and to be attained by all values of small universes; attaining values are replayed.",
 "C04": "Decoding of generated and mutated byte strings as every type is compared with Dec of the specification (value, consumption, error data, panic); one known finding (Duration overflow).",
 "C05": "Values at and beyond every limit, including collections of 65535/65536 items, must be accepted or refused exactly as Enc of the specification says, with the same error data.",
 "C06": "Every stream history within the bounds of MCStream is replayed in guarded memory and compared byte by byte with the specified stream; random longer ones too.",
 "C07": "Every input history within the bounds of MCStream, including enormous counts, is replayed and compared with the specified stream; random longer ones too.",
 "C08": "Slot histories enumerated by TLC and random ones are compared with the specified slot, memory and guards included.",
 "C09": "Histories over bounded slices enumerated by TLC and random ones are compared with the sequence the specification keeps.",
 "C10": "Histories over bounded strings enumerated by TLC and random ones are compared with the text the specification keeps, UTF-8 decided by the specification.",
 "C11": "Every interleaving of iterator operations up to the bound is replayed and compared with the specified deque; known finding: nth.",
 "C12": "Every item of the harness logs its creation, cloning and dropping; the specification keeps the ledger of live items and owners; known finding: discarding containers leaks.",
 "C13": "Declarations (fixed and generated at check time) are resolved to descriptors by the specification and their codecs judged like built-in ones.",
 "C14": "Real threads holding locks, borrowed cells, poisoned locks and lazy values are driven through schedules explored by TLC; events ordered under the locks themselves.",
 "C15": "Wrapper types and equivalent collection types are judged by the descriptor of what they hold; bytes of one decoded as the other.",
 "C16": "Every value is encoded into outputs of every capacity from zero to enough within the bounds, in guarded memory.",
 "C17": "Every constructor of every error, its conversions, source chain and message are compared with the specified ones; errors met while decoding are compared inside nested types.",
}
import sys
sys.path.insert(0, os.path.join(V, "tools"))
import plans
checks, na = [], []
for p in sorted(NOTES):
    if p in plans.PLANS:
        checks.append(dict(property=p, quick_cmd=f"python3 tools/check.py {p} quick", thorough_cmd=f"python3 tools/check.py {p} thorough",
                           technique=TV, level="model_checking", level_note=NOTES[p]))
    else: na.append(dict(property=p, reason="not claimed yet: its specification and harness are being built"))
json.dump(dict(version=1, setup_cmd="sh tools/setup.sh", checks=checks, not_applicable=na,
               notes="Specifications in spec/, harness crate in harness/, driver in tools/check.py, plan of every check in tools/plans.py, findings in known_findings.txt."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
