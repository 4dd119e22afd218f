#!/bin/bash
# tools/withpatch.sh PATCH CMD...: run a command with DST_REPO set to a changed copy of /repo
p=$(realpath "$1"); shift
D=$(mktemp -d /tmp/wp.XXXXXX); cp -a /repo "$D/repo"; git -C "$D/repo" apply "$p" || exit 3
DST_REPO=$D/repo "$@"; rc=$?
case "$D" in /tmp/wp.*) rm -rf "$D";; esac
exit $rc
