#!/bin/sh
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
srcs=$(ls "$PWD"/common/*.c "$PWD"/seatd/poller.c)
w=
grep -q __wrap_sendmsg "$here/demo.c" && w=-Wl,--wrap=sendmsg
gcc -g -w -std=c11 -D_XOPEN_SOURCE=700 -D_GNU_SOURCE -fsanitize=address -I"$PWD/include" -I"$here" $w -o "$t/demo" "$here/demo.c" $srcs || exit 2
cd "$t" && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
