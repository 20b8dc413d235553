#!/usr/bin/env python3
"""Builds the harness from the committed files and checks the reference model's vectors."""
import sys
import check as C

try:
    C.build_pair("C01")
except C.Inconclusive as e:
    print(e)
    sys.exit(2)
print("ready")
