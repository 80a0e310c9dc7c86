#!/bin/bash
# compares the shadow <filesystem> with the real one
set -e
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d)
clang++-19 -std=gnu++23 -O1 -DSHADOW="\"$d/../../sym/include/filesystem\"" "$d/fsdiff.cpp" -o "$t/fsdiff"
mkdir "$t/w"; rc=0; "$t/fsdiff" "$t/w" || rc=$?
rm -rf "$t"; exit $rc
