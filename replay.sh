#!/bin/bash
# replay.sh FILE: re-runs one replay file against /repo's current working tree.
here=$(cd "$(dirname "$0")" && pwd)
id=$(sed -n 's/^# property //p' "$1" | head -1)
variant=plain
case $id in C17) variant=asan ;; C21) variant=tsan ;; esac
export PBT_DIR=$here ASAN_OPTIONS=detect_leaks=0:exitcode=99 UBSAN_OPTIONS=halt_on_error=1:exitcode=98 TSAN_OPTIONS=halt_on_error=1:exitcode=97
bin=$("$here/build.sh" "$variant") || exit 2
PBT_VERBOSE=1 exec "$bin" replay "$1"
