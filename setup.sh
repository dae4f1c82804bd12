#!/bin/bash
# Builds the symbolic executor from the committed sources (checks rebuild it themselves if it is missing).
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys; sys.argv = ['check.py']; sys.path.insert(0, '.')
import check, os
os.makedirs(check.CACHE, exist_ok=True)
class B(check.Build):
    def __init__(self): pass
print(B().engine())
P
