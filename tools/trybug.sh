#!/bin/bash
# trybug.sh PATCH PROP...   runs checks against a scratch copy of /repo with PATCH applied (development aid)
P=$(realpath "$1"); shift
D=$(mktemp -d /tmp/try_XXXX); cp -a /repo "$D/repo" || exit 9
( cd "$D/repo" && git apply "$P" ) || { rm -rf "$D"; exit 9; }
for p in "$@"; do
  ( cd /verif && VF_REPO="$D/repo" python3 check.py $p > "$D/out" 2>&1; rc=$?; echo "== $p rc=$rc"; tail -${LINES_OUT:-4} "$D/out" | cut -c1-400 )
done
rm -rf "$D"
