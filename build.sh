# sourced: build [asan] compiles harness + the program, SDK and interface crates of /repo's working tree into target/ (target/asan)
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. /opt/vp/lib/env.sh
build() {
    local sum old log dir=$V/target bin=debug flags=()
    if [ "$1" = asan ]; then
        dir=$V/target/asan bin=x86_64-unknown-linux-gnu/debug flags=(--target x86_64-unknown-linux-gnu)
        # the sanitizer is an unstable flag of the pinned compiler
        local -x RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Zsanitizer=address -Awarnings"
    fi
    local -x CARGO_TARGET_DIR=$dir
    mkdir -p "$dir"
    log=$dir/build.log
    # what the tree says, not when its files were written
    sum=$(cd /repo && find Cargo.toml programs libs idls dynamic-bonding-curve-sdk -type f ! -path '*/target/*' -print0 2>/dev/null |
        sort -z | xargs -0 sha256sum | sha256sum)
    old=$(cat "$dir/repo.sum" 2>/dev/null)
    cd "$V/harness" || return 2
    if [ "$sum" != "$old" ] && [ -d "$dir/$bin" ]; then
        cargo clean --offline "${flags[@]}" -p dynamic-bonding-curve -p dynamic-bonding-curve-sdk -p damm-v2 -p dynamic-amm -p locker >/dev/null 2>&1
    fi
    rm -f "$dir/repo.sum"
    if ! cargo build --offline "${flags[@]}" >"$log" 2>&1; then
        tail -40 "$log"
        return 2
    fi
    echo "$sum" >"$dir/repo.sum"
    cd "$V" || return 2
}
