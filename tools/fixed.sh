#!/bin/bash
# record the last commit of /repo as a repair: tools/fixed.sh C04 "what failed"
h=$(git -C /repo rev-parse --short HEAD)
echo "fixed: property=$1 $h $2" >> "$(dirname "$0")/../known_findings.txt"
