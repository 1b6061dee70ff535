#!/bin/bash
# Builds the monitored products once; every check brings them up to date with /repo by itself.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
python3 lib/build.py mon && python3 lib/build.py tsan
