#!/usr/bin/env python3
"""Prints the table of planted changes for DESIGN.md from seeded/*/meta.json."""
import json, os
STAGE = {
    "c01-float-window": "giant sizes", "c01-narrow-passes": "early answers", "c02-length-32": "giant sizes", "c06-bit-count": "giant sizes",
    "c07-chunk-64m": "giant sizes", "c11-signed-size": "giant sizes", "c05-split-magic": "coverage-guided", "c08-carry": "coverage-guided",
    "c13-call-count": "long history", "c18-slow-leak": "long history", "c14-first-use": "first calls in forked processes",
    "c12-unwinding": "random search, call repeated while unwinding", "c15-abort-build": "extra builds", "c15-debug-only": "release against checked",
    "c16-native-order": "Miri s390x", "c16-pointer-width": "native i686", "c16-windows": "other systems' conditions",
    "c17-aligned-words": "misaligning allocator", "c17-counter-race": "TSan", "c17-overlap": "Miri", "c17-overread": "ASan", "c17-prefetch": "ASan",
    "c17-uninit": "MSan", "c17-shrink": "ASan", "c18-mapping": "what the process holds", "c20-address": "surroundings: misaligned memory", "c20-capacity": "surroundings: spare capacity",
    "c20-built-name": "surroundings: recorded look-ups", "c20-rc-file": "surroundings: recorded look-ups", "c20-crash-dump": "trapped effects",
    "c20-warning": "trapped effects", "c20-handler": "process state", "c20-quiet-hook": "process state",
}
here = os.path.dirname(os.path.abspath(__file__))
print("| change | needs | caught by |\n|---|---|---|")
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    p = m["property"]
    usual = "surroundings" if p == "C20" else "impossible requests" if p == "C22" else "random search"
    print(f"| {d} | {m['needs']} | {p}: {STAGE.get(d, usual)} |")
