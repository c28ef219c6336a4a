#!/bin/bash
# check.sh setup              builds everything
# check.sh ID                 decides property ID (VERIF_SEED, VERIF_TIER from the environment)
# check.sh replay FILE        executes a replay file again
# check.sh run ID SEED N      shows run N of a property
#
# Always builds from the current working tree of /repo, into /verif/target.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
unset RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER CARGO_BUILD_RUSTFLAGS CARGO_BUILD_TARGET
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUST_BACKTRACE=0 RUST_MIN_STACK=

T=$VERIF_DIR/target

build() { # variant, cargo flags, rustc flags
    local flags=-Ainvalid_reference_casting$'\x1f'-Aunexpected_cfgs
    for f in $3; do flags+=$'\x1f'$f; done
    CARGO_ENCODED_RUSTFLAGS=$flags CARGO_TARGET_DIR=$T/$1 \
        cargo build --quiet --offline --manifest-path sim/Cargo.toml $2 >"$T/$1.log" 2>&1 ||
        { cat "$T/$1.log" >&2; return 1; }
}

build_all() {
    mkdir -p "$T" || return 1
    (
        flock 9
        build checked "" "" & local a=$!
        build release --release "" & local b=$!
        build universal --release "--cfg bsn1_universal_buffer" & local c=$!
        local rc=0
        wait $a || rc=1
        wait $b || rc=1
        wait $c || rc=1
        exit $rc
    ) 9>"$T/lock"
}

build_all || { echo "build failed" >&2; exit 2; }
export BSN1SIM_ALSO=$T/release/release/bsn1sim:$T/universal/release/bsn1sim

case $1 in
setup) exit 0 ;;
replay)
    case $(sed -n 's/^build //p' "$2") in
    universal) exec "$T/universal/release/bsn1sim" replay "$2" ;;
    release) exec "$T/release/release/bsn1sim" replay "$2" ;;
    *) exec "$T/checked/debug/bsn1sim" replay "$2" ;;
    esac
    ;;
run) exec "$T/checked/debug/bsn1sim" "$@" ;;
C*) exec "$T/checked/debug/bsn1sim" check "$1" ;;
*) echo "usage: check.sh setup | ID | replay FILE | run ID SEED N" >&2; exit 2 ;;
esac
