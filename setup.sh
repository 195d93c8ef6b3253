#!/bin/bash
# builds the monitor and, with it, the program in /repo; offline
cd "$(dirname "$0")" && . ./build.sh && build || exit
build asan >/dev/null || echo "no AddressSanitizer build: C32 runs without it"
