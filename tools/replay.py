#!/usr/bin/env python3
"""replay.py FILE: runs a reported counterexample natively against /repo."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
r = json.load(open(sys.argv[1]))
if "entry" not in r:
    print(r["how"])
    sys.exit(0)
for prof in ("dev", "fast"):
    exe = build.native(r["variant"], prof)
    p = subprocess.run([exe, r["entry"], ",".join(map(str, r["args"])), ",".join(map(str, r["inputs"]))], capture_output=True, text=True)
    print(f"[{prof}] exit {p.returncode}\n{p.stdout}")
