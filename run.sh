#!/bin/bash
# bash run.sh ID [quick|thorough]: builds the monitors and runs the check of one property against /repo's working tree.
# Exit 0: held on everything observed; 1: VIOLATION line printed; anything else: no verdict.
here=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}" PATH="/usr/local/bin:/usr/local/go/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off VERIF_DIR="$here"
bin=$(mktemp -d /tmp/vpbin.XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
(cd "$here/harness" && GOFLAGS=-mod=mod go build -o "$bin/vp" .) || { echo "ERROR (no verdict): harness build failed"; exit 2; }
"$bin/vp" "$@"
