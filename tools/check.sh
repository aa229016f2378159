#!/bin/bash
# usage: check.sh PROPERTY quick|thorough
here=$(cd "$(dirname "$0")/.." && pwd)
export VERIF_TIER="$2"
bash "$here/tools/build.sh" || { echo "build failed"; exit 2; }
exec "${SIM_TARGET:-/verif/.build/target}/release/dao-sim" check "$1" "$2"
