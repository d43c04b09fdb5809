#!/bin/bash
# run.sh ID         builds the harness against the working tree of /repo and runs a check
# run.sh ID CASE    runs a single case again
set -u
cd "$(dirname "$0")" || exit 3
export VERIF_DIR="$PWD"
. ./build.sh "$1" || { echo "run.sh: build failed" >&2; exit 3; }
if [ $# -gt 1 ]; then
	exec "$BIN" case "$1" "$2"
fi
exec "$BIN" check "$1"
