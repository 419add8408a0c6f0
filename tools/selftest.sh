#!/bin/bash
# Executes library code symbolically and natively, and compares: a test of the engine.
. /verif/tools/env.sh
d=$(mktemp -d) && trap 'rm -rf "$d"' EXIT
mkdir "$d/harness" "$d/evidence" && cp /verif/harness/* /verif/selftest/*.go "$d/harness/" && cp /verif/known-findings.txt "$d/"
cp -r /verif/bin /verif/engine "$d/"
/verif/bin/engine -verif "$d" -prop C00 -v "$@"
