#!/bin/bash
# bash replay.sh <replay file>     runs one saved case against /repo's current tree
set -u
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/build.sh" || exit 3
export VERIF_DIR="$here"
exec "$here/target/release/harness" replay "$@"
