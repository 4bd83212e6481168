#!/bin/bash
# run.sh <property> [quick|thorough]   check one property on /repo's current tree
# run.sh replay FILE                   run the item of a recorded violation again
# exit 0: held on everything explored; 1: VIOLATION; 70: the check itself could not run
V=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d /dev/shm/mc.XXXXXX 2>/dev/null || mktemp -d /tmp/mc.XXXXXX) || exit 70
trap 'rm -rf "$S"' EXIT
export ZONEINFO=$(/usr/local/go/bin/go env GOROOT)/lib/time/zoneinfo.zip
prop=$1; tier=${2:-${VERIF_TIER:-quick}}
if [ "$prop" = replay ]; then prop=$(sed -n 's/^ *"property": "\(C[0-9]*\)".*/\1/p' "$2" | head -1); replay=$2; fi
case $prop in C19|C21) tags=api;; *) tags=;; esac
bash "$V/build.sh" "$S" "$tags" > "$S/build.log" 2>&1 || { cat "$S/build.log"; echo "build failed" >&2; exit 70; }
if [ -n "$replay" ]; then
	"$S/mc" -replay "$replay" -verif "$V" -scratch "$S" -gledger "$S/gledger" -jobs 1
else
	"$S/mc" -prop "$prop" -tier "$tier" -verif "$V" -scratch "$S" -gledger "$S/gledger" -seed "${VERIF_SEED:-1}" ${MC_ARGS}
fi
