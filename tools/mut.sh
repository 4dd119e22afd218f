#!/bin/bash
# tools/mut.sh PATCH|revert:SHA CHECK...   run checks against a changed copy of /repo
set -u
what=$1; shift
D=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo "$D/repo"
case "$what" in
  revert:*) git -C "$D/repo" revert --no-commit "${what#revert:}" >/dev/null 2>&1 || { echo "cannot revert"; rm -rf "$D"; exit 3; } ;;
  none) ;;
  *) git -C "$D/repo" apply "$(realpath "$what")" || { echo "cannot apply"; rm -rf "$D"; exit 3; } ;;
esac
for c in "$@"; do
  DST_REPO=$D/repo DST_OUT=$D/out DST_SHRINK_S=${DST_SHRINK_S:-5} "$(dirname "$0")/../run.py" "$c" --tier quick > "$D/log" 2>&1
  echo "$what $c rc=$? $(grep -A3 -m1 '^VIOLATION\|^HARNESS' "$D/log" | tail -n +2 | head -2 | cut -c1-220 | tr '\n' ' ')"
  [ -n "${MUT_V:-}" ] && cat "$D/log"
done
case "$D" in /tmp/mut.*) rm -rf "$D";; esac
