#!/bin/bash
# Builds /repo's working tree for every instrumentation the checks use, so that a check only rebuilds what changed.
set -eu
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.path.insert(0, ".")
from vlib import build as B
for k in ("plain", "asan", "tsan"):
    B.build(k)
for k in ("plain", "asan"):
    B.build_harness("linalg", k)
    B.build(k, targets=("modelcomp",))
P
