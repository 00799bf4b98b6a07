#!/bin/sh
# replay.sh FILE : run a replay file written by a check against /repo's current tree
cd "$(dirname "$0")" && exec python3 check.py --replay "$1"
