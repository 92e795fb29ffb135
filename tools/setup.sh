#!/bin/bash
# builds the extracting driver and the first dump of /repo, offline
cd "$(dirname "$0")/.." || exit 2
python3 engine/build.py
