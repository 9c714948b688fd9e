#!/bin/sh
# the daemon with its socket in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
srcs="$(ls "$PWD"/common/*.c "$PWD"/seatd/*.c)"
gcc -g -w -std=c11 -D_XOPEN_SOURCE=700 -D_GNU_SOURCE "-DSEATD_DEFAULTPATH=\"$t/sock\"" '-DSEATD_VERSION="0"' -I"$PWD/include" -o "$t/seatd" $srcs || exit 2
fail() { echo "FAIL $*"; exit 1; }
cd "$t" || exit 2
export SEATD_VTBOUND=0
