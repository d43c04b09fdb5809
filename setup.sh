#!/bin/bash
# Builds the harness once, so that the build cache is warm. Every check builds what it needs again.
cd "$(dirname "$0")" || exit 3
export VERIF_DIR="$PWD"
. ./build.sh setup || exit 1
. ./build.sh C17 || exit 1
. ./build.sh C21 || exit 1
. ./build.sh C14 || exit 1
