#!/bin/bash
# usage: replay.sh FILE    executes a replay file exactly (exit 1: the violation is reproduced)
here=$(cd "$(dirname "$0")" && pwd)
"$here/check.sh" setup || exit 2
dir=target
grep -q 'C11' <(head -3 "$1") && dir=target-engine
exec "$here/build/$dir/release/puzzle-sim" replay "$1"
