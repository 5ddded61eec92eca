#!/bin/bash
# Builds the exporter and warms the per-unit cache (content-addressed: stale entries are never used).
cd "$(dirname "$0")" || exit 1
python3 -B -c '
import sys
sys.path.insert(0, ".")
from sa.program import Program
P = Program()
print(len(P.tus), "units,", len(P._F), "functions,", round(P.t_load, 1), "s")
'
