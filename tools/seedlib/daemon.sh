#!/bin/sh
# builds the demonstration against the seat server's sources in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
srcs=$(ls "$PWD"/common/*.c "$PWD"/seatd/*.c | grep -v '/seatd\.c$')
gcc -g -w -std=c11 -D_XOPEN_SOURCE=700 -D_GNU_SOURCE -fsanitize=address -I"$PWD/include" -I"$here" \
	-Wl,--wrap=open,--wrap=realpath,--wrap=ioctl,--wrap=poll,--wrap=dup -o "$t/demo" "$here/demo.c" $srcs || exit 2
cd "$t" && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
