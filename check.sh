#!/bin/bash
# check.sh ID [quick|thorough]: builds the simulator against /repo's working
# tree and explores one property. 0: held; 1: VIOLATION; 2: no answer.
cd "$(dirname "$0")" || exit 2
[ -n "$2" ] && export VERIF_TIER=$2
mkdir -p evidence replays
exec 9> evidence/.build.lock
flock 9
log=evidence/$1.build.log
if ! bash dst/build.sh -q > "$log" 2>&1; then
    grep -E '^error' -A12 "$log" | head -60 >&2
    echo "check.sh: the simulator does not build against /repo" >&2
    exit 2
fi
flock -u 9
exec 9>&-
DST_VERIF=$PWD exec dst/target/x86_64-unknown-linux-gnu/debug/dst check "$1"
