#!/bin/sh
# libseat with the logind backend; the D-Bus and login libraries are stand-ins
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
srcs="$(ls "$PWD"/common/*.c) $PWD/libseat/libseat.c $PWD/libseat/backend/logind.c $PWD/libseat/backend/noop.c"
gcc -g -w -std=c11 -D_XOPEN_SOURCE=700 -D_GNU_SOURCE -DLIBSEAT=1 -DLOGIND_ENABLED=1 -DHAVE_LIBSYSTEMD=1 -fsanitize=address -I"$PWD/include" -I"$here" -o "$t/demo" "$here/demo.c" $srcs -lsystemd || exit 2
cd "$t" && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
