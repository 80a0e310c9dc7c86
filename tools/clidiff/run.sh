#!/bin/bash
# compares the stand-in for CLI11 with the installed CLI11 on a list of command lines: bash tools/clidiff/run.sh
d=$(cd "$(dirname "$0")" && pwd); r=${1:-/repo}; t=$(mktemp -d)
# the installed CLI11 keeps Range and IsMember in another header than the one the program includes
clang++-19 -std=gnu++23 -I"$d" -I$r/app -I$r/lib -idirafter "$d/../../sym/include" "$d/t.cpp" $r/app/args.cpp $r/lib/server_config.cpp -lspdlog -lfmt -o $t/real 2>/dev/null || exit 2
clang++-19 -std=gnu++23 -I"$d/../../sym/include" -I$r/app -I$r/lib "$d/t.cpp" $r/app/args.cpp $r/lib/server_config.cpp -o $t/shadow 2>/dev/null || exit 2
bad=0; n=0
while IFS= read -r x; do
  eval "$t/real $x" >$t/o1 2>/dev/null; a=$?; eval "$t/shadow $x" >$t/o2 2>/dev/null; b=$?
  n=$((n+1))
  l1=$(grep '^\[' $t/o1); l2=$(grep '^\[' $t/o2)
  if [ "$l1" != "$l2" ] || [ "$a" != "$b" ]; then echo "DIFFERS ($a $b): $x"; echo " real   $l1"; echo " shadow $l2"; bad=1; fi
done < "$d/lines.txt"
echo "$n command lines compared"
rm -rf "$t"; exit $bad
