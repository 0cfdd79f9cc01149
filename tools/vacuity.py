#!/usr/bin/env python3
"""Vacuity check: puts `assert(false)` at the start of every function under contract; the verifier must refuse each one.
usage: vacuity.py <extracted.rs> <scratch dir>   (the text check.py leaves in its work directory, or the extractor's output)"""
import re, subprocess, sys
src, d = sys.argv[1:3]
L = open(src).read().split("\n")
out, pend, ext, names, i = [], None, False, {}, 0
while i < len(L):
    if L[i].startswith("// @FN "):
        pend, ext = L[i][7:].strip(), "external_body" in "".join(L[i + 1:i + 3])
    out.append(L[i])
    if pend and L[i] == "{":
        if not ext:
            while L[i + 1].strip() == "" or L[i + 1].strip().startswith(("hide(", "broadcast use")):
                i += 1
                out.append(L[i])
            out.append("proof { assert(false); }")
            names[str(len(out))] = pend
        pend = None
    i += 1
open(f"{d}/vac.rs", "w").write("\n".join(out))
r = subprocess.run(["verus", "vac.rs", "--crate-type", "lib", "--num-threads", "8", "--rlimit", "10"], cwd=d, capture_output=True, text=True)
hit = set(re.findall(r"^error: assertion failed\n\s*--> vac.rs:(\d+)", r.stderr, re.M))
bad = [names[k] for k in names if k not in hit]
print(f"{len(names)} functions, {len(hit)} refuse `assert(false)`")
print("vacuous:", bad if hit else "no verdict")
sys.exit(1 if bad else 0)
