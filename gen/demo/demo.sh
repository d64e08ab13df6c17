#!/bin/bash
# Builds the demonstration with the library sources in the current directory (the repository) and runs it.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
gcc -g -O1 -w $CFLAGS -DSV_VENDOR_AXIS_COMMUNICATIONS -I"$R" -I"$R/lib/src" -I"$R/lib/src/includes" -I"$R/lib/vendors" -I"$D" \
  "$D/demo.c" "$R"/lib/src/*.c "$R"/lib/src/legacy/*.c "$R"/lib/vendors/axis-communications/*.c \
  "$R/lib/plugins/unthreaded-signing/plugin.c" -lcrypto -lpthread -o "$T/demo" || exit 2
cd "$T" && timeout 120 ./demo
