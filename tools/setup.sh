#!/bin/bash
# builds the engine, and fills the build cache.
cd "$(dirname "$0")/.." || exit 1
. tools/env.sh
mkdir -p bin evidence
(cd engine && go build -o ../bin/engine .) || exit 1
bin/engine -warm -verif "$PWD" || exit 1
