#!/bin/bash
# compiles every variant once, so that the checks start with warm object files
cd "$(dirname "$0")" && for v in plain asan tsan; do ./build.sh $v || exit 1; done
