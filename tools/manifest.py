#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
NA = {"C24": "The real GIF, PNG and WebP compressors of the image crate (DEFLATE/LZW/VP8L bit streams with CRCs, Huffman tables and hashed match finders over symbolic pixels) are outside what the engine can execute symbolically; the part of the property that is this repository's code, up to the encoder's interface, is decided by C21."}
LEVEL = ("Bounded symbolic model checking of the compiled code (LLVM IR of /repo regenerated on every run): holds for every value of the symbolic inputs within the listed bounds; "
         "trusted: rustc's IR, the engine (validated on every run against native executions), the oracle in harness/src, z3 and cvc5. Nothing is claimed beyond the bounds in the evidence file.")
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3 tools/check.py {i} quick",
        "thorough_cmd": f"python3 tools/check.py {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "symbolic execution of the real code's LLVM IR against a standards oracle, decided by SMT (z3, cvc5), counterexamples replayed natively",
        "level": "model_checking",
        "level_note": LEVEL,
    })
m = {"version": 1, "setup_cmd": "python3 tools/build.py", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks: the harness drives the public API of /repo through a path dependency. Known findings are in known-findings.txt."}
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
