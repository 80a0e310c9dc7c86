# build.sh OUT DEMO.cpp SOURCES... : compiles a demonstration against the sources in the current directory
set -e
out=$1; shift
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
objs=()
for s in "$@"; do
    o="$out.$(echo "$s" | tr '/' '_').o"
    clang++-19 -std=gnu++23 -O1 -g1 -DSPDLOG_COMPILED_LIB -DSPDLOG_SHARED_LIB -DSPDLOG_FMT_EXTERNAL -DFMT_SHARED \
        -fsanitize=address,undefined -fno-sanitize-recover=undefined \
        -I"$here/stub" -I"$here" -Ilib -Iapp -c "$s" -o "$o" &
    objs+=("$o")
done
for j in $(jobs -p); do wait "$j" || exit 99; done
clang++-19 -fsanitize=address,undefined -o "$out" "${objs[@]}" -lspdlog -lfmt -lssl -lcrypto || exit 99
