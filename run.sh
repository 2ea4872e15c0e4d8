#!/bin/bash
# run.sh build | check <ID> | thorough <ID> | replay <FILE>
# Builds the harness against the current working tree of /repo and runs one check.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$here/harness/target"
export VERIF_ROOT="$here"
unset RUSTFLAGS CARGO_PROFILE_DEV_DEBUG
mkdir -p "$CARGO_TARGET_DIR"

# Cargo goes by mtimes; sources put back with an old mtime would leave a stale build.
sums=$(cd /repo && find src Cargo.toml Cargo.lock build.rs -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$sums" != "$(cat "$CARGO_TARGET_DIR/.repo-sums" 2>/dev/null)" ]; then
    cargo clean --offline -q -p kdbx-rs --manifest-path "$here/harness/Cargo.toml" >/dev/null 2>&1
fi
if ! log=$(cargo build --offline --manifest-path "$here/harness/Cargo.toml" 2>&1); then
    printf '%s\n' "$log" | tail -40
    echo "ERROR: build failed"
    exit 3
fi
printf '%s\n' "$sums" > "$CARGO_TARGET_DIR/.repo-sums"
bin="$CARGO_TARGET_DIR/debug/kdbx-harness"

# The command-line tools, for the property about them
build_tools() {
    local t="$here/harness/target/tools"
    if [ "$sums" != "$(cat "$t/.repo-sums" 2>/dev/null)" ]; then
        CARGO_TARGET_DIR="$t" cargo clean --offline -q -p kdbx-rs --manifest-path /repo/Cargo.toml >/dev/null 2>&1
    fi
    if ! log=$(CARGO_TARGET_DIR="$t" CARGO_PROFILE_DEV_OPT_LEVEL=2 cargo build --offline --bins --manifest-path /repo/Cargo.toml 2>&1); then
        printf '%s\n' "$log" | tail -40
        echo "ERROR: build of the tools failed"
        exit 3
    fi
    printf '%s\n' "$sums" > "$t/.repo-sums"
    export VERIF_TOOLS="$t/debug"
}

case "$1" in
build)
    build_tools
    ;;
check)
    [ "$2" = C22 ] && build_tools
    exec "$bin" check "$2"
    ;;
thorough)
    [ "$2" = C22 ] && build_tools
    VERIF_TIER=thorough exec "$bin" check "$2"
    ;;
replay)
    build_tools
    exec "$bin" replay "$2"
    ;;
*)
    echo "usage: run.sh build | check <ID> | thorough <ID> | replay <FILE>"
    exit 2
    ;;
esac
