#!/bin/bash
# usage: replay.sh FILE -- runs the recorded counterexample against the real code
f=$(readlink -f "$1")
cd "$(dirname "$0")" || exit 2
export GOSYM_VERIF="$(pwd)"
bash ./setup.sh || exit 2
exec ./bin/gosym replay "$f"
