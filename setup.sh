#!/bin/bash
# Builds the crash-injection shim (a small LD_PRELOAD library) into native/build.
set -e
cd "$(dirname "$0")"
if [ -f native/crashshim.c ]; then
  mkdir -p native/build
  gcc -O1 -shared -fPIC -o native/build/crashshim.so native/crashshim.c -ldl
fi
mkdir -p evidence replays
