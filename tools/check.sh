#!/bin/bash
# check.sh <property> <tier>
cd "$(dirname "$0")/.." || exit 1
. tools/env.sh
mkdir -p bin evidence
if [ ! -x bin/engine ] || [ -n "$(find engine -newer bin/engine -print -quit)" ]; then
	(cd engine && go build -o ../bin/engine .) || exit 1
fi
exec bin/engine -prop "$1" -tier "${2:-quick}" -verif "$PWD"
