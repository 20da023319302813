#!/bin/bash
# run.sh check <ID> | replay <FILE> | build
# Builds the harness against /repo's current working tree and runs one property.
# Exit 0: held on everything explored. 1: violation (VIOLATION line on stdout). 2: error.
set -u
cd "$(dirname "$(readlink -f "$0")")" || exit 2
root=$PWD
export HOME="${HOME:-/root}" PATH="${HOME:-/root}/.cargo/bin:/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_TARGET_DIR="$root/target" VERIF_ROOT="$root"
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS

bin_of() { # which harness binary decides a property
    case "$1" in
        C08 | C09 | C10 | C11 | C12 | C13 | C14 | C15 | C16 | C17 | C18 | C19 | C20 | C21) echo cal ;;
        *) echo full ;;
    esac
}

build() { # package
    mkdir -p "$root/target" "$root/evidence" "$root/replays"
    exec 9>"$root/target/.lock"
    flock 9
    # Do not trust file times: rebuild the crates under test whenever their content changed.
    local stamp
    stamp=$( (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum
        cd "$root/harness" && find . -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.sh' \) -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
    if [ "$(cat "$root/target/.stamp" 2>/dev/null)" != "$stamp" ]; then
        local own=(-p engine -p cal -p full -p calendar -p qlab -p qlab-error -p qlab-math -p qlab-time -p qlab-termstructure -p qlab-instrument)
        (cd harness && cargo clean --release --offline "${own[@]}") >/dev/null 2>&1
        (cd harness && CARGO_TARGET_DIR="$root/target/cov" cargo clean --release --offline "${own[@]}") >/dev/null 2>&1
        rm -f "$root"/target/{,cov/}release/{cal,full}
        echo "$stamp" >"$root/target/.stamp"
    fi
    # Numeric literals of the code under test: values its branches may depend on. Long tables are
    # left out (the calendars that use them are checked exhaustively).
    (cd /repo && find crates third-parties/calendar -path '*/src/*' -name '*.rs' -print0 | sort -z | xargs -0 cat) |
        sed 's,//.*,,' | awk 'gsub(/,/, ",") < 8' |
        grep -oE '\b[0-9][0-9_]*(\.[0-9_]+)?([eE][-+]?[0-9]+)?' | tr -d _ | sort -u >"$root/target/dictionary.txt"
    # The user-defined number type of exact.rs is left out should the number trait of the code under
    # test have changed in a way that it does not meet.
    # Beside it, the instrumented build that the guided search runs in; without it (it failed) the
    # guided search is left out.
    instrumented "$1" 9>&- &
    local features=()
    [ "$1" = full ] && features=(--features exact)
    if [ "$1" = full ] && ! (cd harness && timeout 600 cargo build --release --offline -p "$1" "${features[@]}") >"$root/target/build-$1-exact.log" 2>&1; then
        features=()
    fi
    if ! (cd harness && timeout 600 cargo build --release --offline -p "$1" "${features[@]}") >"$root/target/build-$1.log" 2>&1; then
        tail -40 "$root/target/build-$1.log" >&2
        echo "ERROR: building $1 failed" >&2
        wait
        exit 2
    fi
    wait
    exec 9>&-
}

instrumented() { # package
    export CARGO_TARGET_DIR="$root/target/cov" RUSTC_WRAPPER="$root/harness/cov-rustc.sh"
    cd "$root/harness" || return
    if [ "$1" = full ] && timeout 600 cargo build --release --offline -p full --features exact; then return; fi
    timeout 600 cargo build --release --offline -p "$1" || rm -f "$root/target/cov/release/$1"
} >"$root/target/build-$1-cov.log" 2>&1

case "${1:-}" in
    build)
        build cal
        build full
        ;;
    check)
        b=$(bin_of "${2:?}")
        build "$b"
        [ -x "$root/target/cov/release/$b" ] && export VERIF_GUIDED="$root/target/cov/release/$b"
        exec "$root/target/release/$b" check "$2"
        ;;
    replay)
        [ -r "${2:-}" ] || exit 2
        b=$(bin_of "$(sed -n 's/^property=//p' "$2" | head -1)")
        build "$b"
        exec "$root/target/release/$b" replay "$2"
        ;;
    *)
        echo "usage: run.sh check <ID> | replay <FILE> | build" >&2
        exit 2
        ;;
esac
