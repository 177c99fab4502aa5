#!/bin/bash
# Builds everything from the committed files, offline.
here=$(cd "$(dirname "$0")" && pwd)
exec bash "$here/build.sh"
