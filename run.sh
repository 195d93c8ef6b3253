#!/bin/bash
# run.sh PROPERTY: monitors the program of /repo's working tree; VERIF_SEED and VERIF_TIER choose seed and depth
cd "$(dirname "$0")" && . ./build.sh || exit 2
p=$1
tier=${VERIF_TIER:-quick}
build || { echo "build failed"; exit 2; }
case $tier in
    thorough) cases=2000000 secs=3000 asan=60000 ;;
    *) tier=quick cases=20000 secs=400 asan=1500 ;;
esac
# one history of C12 offers about a thousand configurations
[ "$p" = C12 ] && cases=$((cases / 10))
ulimit -c 0
check() { # program, out, more arguments
    local bin=$1 out=$2
    shift 2
    "$bin" check --property "$p" --tier "$tier" --seed "${VERIF_SEED:-1}" --jobs "$(nproc)" --out "$out" "$@"
}
more=()
# C32 (no crash, no undefined behaviour): first some histories under AddressSanitizer
if [ "$p" = C32 ]; then
    a=$V/target/asan-out
    rm -rf "$V/target/asan-out" "$V/target/asan-report"
    mkdir -p "$a" "$V/target/asan-report"
    cp "$V/known-findings.json" "$a/"
    if build asan >/dev/null; then
        ASAN_OPTIONS=detect_leaks=0:log_path=$V/target/asan-report/r check "$V/target/asan/x86_64-unknown-linux-gnu/debug/dbc-monitor" "$a" \
            --cases "$asan" --secs $((secs / 2)) >"$V/target/asan.log" 2>&1
        rc=$?
        if [ $rc = 1 ]; then
            mkdir -p "$V/evidence" "$V/replay"
            cp "$a"/evidence/*.json "$V/evidence/"
            cp "$a"/replay/* "$V/replay/" 2>/dev/null
            head -40 "$V"/target/asan-report/r.* 2>/dev/null
            sed "s#$a/#$V/#g" "$V/target/asan.log"
            exit 1
        fi
        [ $rc = 0 ] && more=(--sanitized "$a/evidence/C32.json") || { echo "AddressSanitizer run gave no answer (rc $rc)"; tail -3 "$V/target/asan.log"; }
    else
        echo "no AddressSanitizer build; going on without"
    fi
fi
check "$V/target/debug/dbc-monitor" "$V" --cases "$cases" --secs "$secs" "${more[@]}"
