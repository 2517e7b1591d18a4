#!/bin/bash
# Warm the object cache: compile the library in the variants the checks use.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence build .cache replay
exec python3 run.py --warm
