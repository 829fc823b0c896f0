#!/bin/bash
# nothing to build: the analyses are Python over the system's libLLVM-18; check that they can start
set -e
cd "$(dirname "$0")"
mkdir -p evidence
python3 -m compileall -q vt check.py
python3 check.py P01 >/dev/null || { python3 check.py P01; true; }
