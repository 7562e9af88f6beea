#!/bin/bash
# check.sh <property> [quick|thorough]: builds against /repo, then runs the simulations.
HERE=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$HERE
bash "$HERE/build.sh" || exit 2
exec "$HERE/target/release/simcheck" check "$1" ${2:+"$2"}
