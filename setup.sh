#!/bin/bash
# Warms the build cache: builds every explorer against /repo's working tree and throws the binaries away.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"; REPO="${VERIF_REPO:-/repo}"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
W="$(mktemp -d)"; trap 'rm -rf "$W"' EXIT
for b in ddlmc dbmc schedmc genmc; do
  p=$b; [ $b = schedmc ] && p=ddlmc; [ $b = genmc ] && p=dbmc
  python3 "$HERE/mkoverlay.py" "$HERE/harness" "$REPO" "$W" "$b" > "$W/o.json" || exit 1
  (cd "$REPO" && go build -ldflags=-checklinkname=0 -overlay "$W/o.json" -o "$W/$b" "./pkg/internal/zzverif/$p") || exit 1
done
echo ok
