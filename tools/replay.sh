#!/bin/bash
# usage: replay.sh FILE   re-executes a replay file against /repo's current tree
here=$(cd "$(dirname "$0")/.." && pwd)
bash "$here/tools/build.sh" || { echo "build failed"; exit 2; }
exec "${SIM_TARGET:-/verif/.build/target}/release/dao-sim" replay "$1"
