#!/bin/bash
# replay.sh FILE: runs a recorded execution again on /repo's working tree.
V=$(cd "$(dirname "$0")" && pwd)
H=$("$V/build.sh") || exit 2
exec "$H" -replay "$1" -v
