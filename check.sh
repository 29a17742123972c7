#!/bin/bash
# check.sh ID [quick|thorough]: builds the symbolic executor if needed and checks one property.
cd "$(dirname "$0")" || exit 0
./build.sh || { echo "the symbolic executor does not build"; exit 0; }
[ -n "$2" ] && export VERIF_TIER="$2"
exec ./bin/symgo check "$1"
