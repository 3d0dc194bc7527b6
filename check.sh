#!/bin/bash
# check.sh ID [quick|thorough]: decides one property on /repo's current working tree.
# Exit 0: held on everything explored. Exit 1 with a VIOLATION line: it did not. Exit 2: could not run.
here=$(cd "$(dirname "$0")" && pwd)
id=$1; tier=${2:-${VERIF_TIER:-quick}}
variant=plain
case $id in C17) variant=asan ;; C21) variant=tsan ;; esac
export VERIF_TIER=$tier VERIF_SEED=${VERIF_SEED:-1} PBT_DIR=$here
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:allocator_may_return_null=0 UBSAN_OPTIONS=halt_on_error=1:exitcode=98 TSAN_OPTIONS=halt_on_error=1:exitcode=97
bin=$("$here/build.sh" "$variant") || exit 2
exec "$bin" run "$id"
