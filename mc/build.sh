#!/bin/bash
# build.sh <harness> : builds /verif/.build/<harness>/check from /repo's working tree.
set -e
H=$1
HERE=$(cd "$(dirname "$0")/.." && pwd)
REPO=${REPO:-/repo}
B=${MC_BUILD:-$HERE/.build}/$H
mkdir -p "$B"
CC=${CC:-gcc}
SAN="-fsanitize=address,undefined -fno-sanitize-recover=undefined"
[ -n "$MC_NOSAN" ] && SAN=""
BASE="-g -O1 -fno-omit-frame-pointer -w $SAN"
LIBFLAGS="-DSV_VENDOR_AXIS_COMMUNICATIONS"
INC="-I$REPO -I$REPO/lib/src -I$REPO/lib/src/includes -I$REPO/lib/vendors -I$HERE/mc"
LIBSRC=$(ls $REPO/lib/src/*.c $REPO/lib/src/legacy/*.c $REPO/lib/vendors/axis-communications/*.c)
PLUGINSRC=
MCSRC="$HERE/mc/mc.c $HERE/mc/sim.c $HERE/mc/plugin.c $HERE/mc/sslcache.c"
WRAP="$(grep -o "^W(.*, [A-Za-z0-9_]*, (" "$HERE/mc/sslcache.c" | sed "s/^W([^,]*, \([A-Za-z0-9_]*\),.*/-Wl,--wrap=\1/" | tr "\n" " ")-Wl,--wrap=PEM_read_bio_PUBKEY -Wl,--wrap=PEM_read_bio_PrivateKey -Wl,--wrap=PEM_read_bio_X509"
LIBS="-lcrypto -lpthread"
EXTRA=
RENAME="-Dsv_signing_plugin_sign=real_sign -Dsv_signing_plugin_get_signature=real_get_signature -Dsv_signing_plugin_session_setup=real_setup -Dsv_signing_plugin_session_teardown=real_teardown -Dsv_signing_plugin_init=real_init -Dsv_signing_plugin_exit=real_exit"
UNTH=$REPO/lib/plugins/unthreaded-signing/plugin.c
if [ -f "$HERE/mc/$H.mk.sh" ]; then . "$HERE/mc/$H.mk.sh"; fi
pids=()
objs=()
cc_bg() { # out flags... src
  local out=$1; shift
  objs+=("$out")
  $CC $BASE -c "$@" -o "$out" 2> "$out.log" || { cat "$out.log" >&2; exit 1; } &
  pids+=($!)
}
for f in $LIBSRC; do cc_bg "$B/lib_$(basename $f .c).o" $LIBFLAGS $INC $f; done
[ -n "$UNTH" ] && cc_bg "$B/unthreaded.o" $LIBFLAGS $RENAME $INC $UNTH
for f in $PLUGINSRC; do cc_bg "$B/plugin_$(basename $f .c).o" $LIBFLAGS $PLUGINFLAGS $INC $f; done
for f in $MCSRC $HERE/mc/$H.c; do cc_bg "$B/mc_$(basename $f .c).o" $MCFLAGS $INC $f; done
for p in "${pids[@]}"; do wait $p || { echo "BUILD FAILED" >&2; exit 2; }; done
$CC $BASE -o "$B/check" "${objs[@]}" $WRAP $EXTRA $LIBS
