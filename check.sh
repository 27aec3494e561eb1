#!/bin/bash
# check.sh <PROPERTY>: decides one property on /repo's current source. Exit 0 held, 1 violated, other: error of the check.
cd "$(dirname "$0")/engine" && exec python3 run.py "$1"
