#!/bin/bash
# Compiles the harness once, so that a broken toolchain or harness shows before the checks run.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
tmp=$(mktemp -d /tmp/vsetup-XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$here/harness/go.mod" "$tmp/go.mod" && cp "$here/harness/go.sum" "$tmp/go.sum" || exit 2
cd "$here/harness" && go build -modfile="$tmp/go.mod" -o "$tmp/vrun" ./cmd/vrun && "$tmp/vrun" -list
