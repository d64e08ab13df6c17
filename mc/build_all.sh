#!/bin/bash
# Builds all harnesses (warms up; every check rebuilds its own from /repo anyway).
cd "$(dirname "$0")/.." || exit 1
for h in $(awk '{print $2}' mc/harness.map | sort -u); do bash mc/build.sh $h || exit 1; done
