#!/bin/bash
# check.sh PROPERTY quick|thorough
cd "$(dirname "$0")" || exit 0
export VERIF_DIR="$PWD"
[ -x bin/engine ] || ./build.sh || { echo "the encoder does not build"; exit 0; }
exec bin/engine check "$1" "$2"
