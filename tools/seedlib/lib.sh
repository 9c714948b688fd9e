#!/bin/sh
# libseat with the seatd and no-op backends, against a scripted server on a socket in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
srcs="$(ls "$PWD"/common/*.c) $PWD/libseat/libseat.c $PWD/libseat/backend/seatd.c $PWD/libseat/backend/noop.c"
gcc -g -w -std=c11 -D_XOPEN_SOURCE=700 -D_GNU_SOURCE -DLIBSEAT=1 -DSEATD_ENABLED=1 '-DSEATD_DEFAULTPATH="sock"' -fsanitize=address -I"$PWD/include" -I"$here" -o "$t/demo" "$here/demo.c" $srcs || exit 2
cd "$t" && unset LIBSEAT_BACKEND && SEATD_SOCK=sock ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
