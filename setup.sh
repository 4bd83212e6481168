#!/bin/bash
# setup.sh: builds everything once, to show that it builds here (and to fill Go's build cache)
V=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d /dev/shm/mc.XXXXXX 2>/dev/null || mktemp -d /tmp/mc.XXXXXX) || exit 1
trap 'rm -rf "$S"' EXIT
bash "$V/build.sh" "$S" "" && bash "$V/build.sh" "$S" api
