#!/bin/bash
# Usage: run.sh <property>            decide one property (VERIF_TIER=quick|thorough)
#        run.sh replay <file>         execute one recorded counterexample again
#        run.sh build                 build all checks
# Exit: 0 held, 1 violated (VIOLATION line), anything else: error of the check.
set -u
VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR
export HOME=/root PATH=/root/.cargo/bin:/usr/local/cargo/bin:${PATH:-/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
# the plain build, which C27 compares with
export MC_PLAIN="$VERIF_DIR/target/mcgeo/release/mcgeo"
unset RUSTFLAGS RUST_LOG CARGO_TARGET_DIR CARGO_BUILD_TARGET

crate_of() {
    case "$1" in
        C13|C23|C24|C28) echo mc3d ;;
        C15|C16|C17|C18|C19|C20) echo mctile ;;
        C27) echo mcgeo-logging ;; # mcgeo with the feature `logging`
        C*) echo mcgeo ;;
        *) echo "unknown property $1" >&2; return 1 ;;
    esac
}

build() { # crate, or crate-feature
    local dir="${1%%-*}" target="$VERIF_DIR/target/$1" stamp sum features=()
    if [ "$dir" != "$1" ]; then
        build "$dir"
        features=(--features "${1#*-}")
    fi
    mkdir -p "$target"
    (
        flock 9
        # cargo goes by modification times; files put back with an old one must be compiled again
        stamp="$target/.repo-sources"
        sum="$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
        if [ -f "$stamp" ] && [ "$(cat "$stamp")" != "$sum" ]; then
            cargo clean --release --offline -p auburn --manifest-path "$VERIF_DIR/$dir/Cargo.toml" --target-dir "$target" >/dev/null 2>&1
        fi
        echo "$sum" > "$stamp"
        # warnings of the code under test are not our business
        if ! cargo build --release --offline --quiet --manifest-path "$VERIF_DIR/$dir/Cargo.toml" "${features[@]}" --target-dir "$target" >"$target/build.log" 2>&1; then
            { grep -A 8 "^error" "$target/build.log" || tail -n 20 "$target/build.log"; } | head -n 60 >&2
            echo "ENGINE ERROR: $1 does not build" >&2
            exit 2
        fi
    ) 9>"$target/.lock" || exit 2
}

case "${1:-}" in
    build)
        for c in mcgeo mcgeo-logging mctile mc3d; do build "$c"; done
        exit 0
        ;;
    replay)
        prop="$(sed -n 's/.*"property": *"\([^"]*\)".*/\1/p' "$2" | head -1)"
        c="$(crate_of "$prop")" || exit 2
        build "$c"
        exec "$VERIF_DIR/target/$c/release/${c%%-*}" replay "$2"
        ;;
    *)
        c="$(crate_of "${1:-}")" || exit 2
        build "$c"
        exec "$VERIF_DIR/target/$c/release/${c%%-*}" "$1"
        ;;
esac
