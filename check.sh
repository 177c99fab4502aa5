#!/bin/bash
# bash check.sh <property id>      exit 0 held, 1 violated (VIOLATION line), other: no answer
set -u
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/build.sh" || exit 3
export VERIF_DIR="$here"
exec "$here/target/release/harness" check "$@"
