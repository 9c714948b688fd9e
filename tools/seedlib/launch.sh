#!/bin/sh
# seatd-launch with a stand-in for seatd, and its socket path in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
gcc -g -w -std=c11 -D_XOPEN_SOURCE=700 -D_GNU_SOURCE "-DSEATD_INSTALLPATH=\"$t/seatd\"" "-DSEATD_DEFAULTPATH=\"$t/sock\"" '-DSEATD_VERSION="0"' -o "$t/launch" "$PWD/seatd-launch/seatd-launch.c" || exit 2
cat > "$t/seatd" <<EOF
#!/bin/sh -p
PATH=/usr/bin:/bin
trap 'kill \$! 2>/dev/null; echo ended > $t/ended; exit 0' TERM
echo "\$*" > $t/args
: > $t/sock
echo \$\$ > $t/pid
echo >&\$2
eval "exec \$2>&-"
sleep 20 &
wait
EOF
chmod 755 "$t/seatd" "$t"
fail() { echo "FAIL $*"; [ -f "$t/pid" ] && kill "$(cat "$t/pid")" 2>/dev/null; exit 1; }
cd "$t" || exit 2
