#!/bin/bash
# builds the framework from the committed files: exporter, mirrored crates, and a warm dependency cache for both builds
cd "$(dirname "$0")" || exit 2
exec python3 - <<'P'
import os, sys
sys.path.insert(0, "vp")
import build
with build.Lock():
    build.mirror()
    build.build_exporter()
    print("framework built in", build.B)
P
