#!/bin/bash
# bash check.sh PROPERTY TIER [vrun flags]: builds the harness from /repo's working tree and runs one check.
# (VERIF_REPO names another tree instead of /repo while planted bugs are tried out.)
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
seed=${VERIF_SEED:-1}
repo=${VERIF_REPO:-/repo}
tmp=$(mktemp -d /tmp/vcheck-XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
sed "s#=> /repo#=> $repo#" "$here/harness/go.mod" >"$tmp/go.mod" && cp "$here/harness/go.sum" "$tmp/go.sum" || exit 2
race=
case $prop in C22) race=-race;; esac
(cd "$here/harness" && go build $race -modfile="$tmp/go.mod" -o "$tmp/vrun" ./cmd/vrun) || { echo "build failed"; exit 2; }
export VERIF_BIN="$tmp"
case $prop in C25)
    cp "$repo/cmd/fontcmd/go.mod" "$tmp/fc.mod" && cp "$repo/cmd/fontcmd/go.sum" "$tmp/fc.sum" &&
    (cd "$repo/cmd/fontcmd" && go build -modfile="$tmp/fc.mod" -o "$tmp/fontcmd" .) || { echo "build of fontcmd failed"; exit 2; };;
esac
"$tmp/vrun" -prop "$prop" -tier "$tier" -seed "$seed" -verif "$here" "$@"
