#!/bin/bash
# trybug.sh ID [PROP...]: runs the quick checks of the bug's property (or PROP...) against a scratch copy with the bug.
id=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd)
wt=$(mktemp -d /tmp/trybug-XXXXXX); rmdir "$wt"
git -C /repo worktree add -q --detach "$wt" HEAD || exit 2
v=$(mktemp -d /tmp/tryv-XXXXXX)
trap 'git -C /repo worktree remove --force "$wt"; rm -rf "$v"' EXIT
git -C "$wt" apply "$here/seeded/$id/patch.diff" || exit 2
cp -a "$here/harness" "$here/check.sh" "$here/known_findings.json" "$v/"
props=${*:-$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")}
for p in $props; do
  VERIF_REPO=$wt bash "$v/check.sh" $p ${TIER:-quick} >"$v/out" 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -c ^VIOLATION "$v/out") $(grep ^VIOLATION -A1 "$v/out" | cut -c1-300 | head -3 | tr '\n' ' ')"
done
