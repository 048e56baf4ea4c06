#!/bin/sh
# every check on the unchanged tree: all.sh [options of check...]
cd "$(dirname "$0")/.."
for p in 01 02 03 04 05 06 07 08 09 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24; do
    DST_MINIMISE=20 /opt/venv/bin/python -m dst check C$p "$@" 2>&1 | cut -c1-400
    done
