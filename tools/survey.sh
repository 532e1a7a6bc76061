#!/bin/bash
# survey.sh ID SCALE SHRINK_SECONDS [SUITE]: development aid, collects the kinds of failures of a check instead of stopping at the first
cd "$(dirname "$0")/.."
PBT_SURVEY=${3:-20} python3 check.py $1 --scale ${2:-1} --suite ${4:-all}
