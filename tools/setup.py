#!/usr/bin/env python3
"""Pre-builds every harness, all translation units in parallel (the checks rebuild whatever changed since)."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import vb
from registry import CHECKS
jobs = []
for i, c in CHECKS.items():
    for h in c["harnesses"]:
        hs = [h["src"]] if isinstance(h["src"], str) else h["src"]
        for s in [os.path.join(V, "harness", x) for x in hs] + vb.lib_sources(h.get("lib", ())):
            j = (s, h.get("variant", "asan"), tuple(h.get("extra", ())))
            if j not in jobs:
                jobs.append(j)
# several entries may share a source in different variants: compile_all is keyed by source, so go variant by variant
for v, x in sorted({(j[1], j[2]) for j in jobs}):
    try:
        _, n = vb.compile_all([j for j in jobs if (j[1], j[2]) == (v, x)])
        print(v, x, "compiled", n, flush=True)
    except vb.BuildError as e:
        print(e, flush=True)
bad = 0
for i, c in CHECKS.items():
    for h in c["harnesses"]:
        try:
            exe, n = vb.build(h["name"], h["src"], h.get("lib", ()), h.get("variant", "asan"), h.get("libs", ()), h.get("extra", ()))
            print(i, exe, flush=True)
        except vb.BuildError as e:
            print(i, e); bad = 1
sys.exit(bad)
