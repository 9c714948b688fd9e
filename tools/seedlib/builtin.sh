#!/bin/sh
# libseat with the embedded server
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
srcs="$(ls "$PWD"/common/*.c "$PWD"/seatd/*.c | grep -v '/seatd\.c$') $PWD/libseat/libseat.c $PWD/libseat/backend/seatd.c $PWD/libseat/backend/noop.c"
gcc -g -w -std=c11 -D_XOPEN_SOURCE=700 -D_GNU_SOURCE -DLIBSEAT=1 -DSEATD_ENABLED=1 -DBUILTIN_ENABLED=1 "-DSEATD_DEFAULTPATH=\"$t/sock\"" -I"$PWD/include" -I"$here" -o "$t/demo" "$here/demo.c" $srcs || exit 2
cd "$t" && timeout 60 ./demo
