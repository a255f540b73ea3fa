#!/bin/bash
# check.sh <ID> <quick|thorough>   decide one property on /repo's working tree
# check.sh replay <file>           re-run a recorded violation
# check.sh build                   build only
cd "$(dirname "$0")" || exit 2
export HOME=/root PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= RUST_BACKTRACE=0
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1
export CARGO_TARGET_DIR="$PWD/harness/target"
unset RUSTFLAGS
log="$CARGO_TARGET_DIR/build.log"
mkdir -p "$CARGO_TARGET_DIR"
if ! cargo build --offline --locked --manifest-path harness/Cargo.toml >"$log" 2>&1; then
    tail -n 40 "$log"
    echo "ERROR: the harness does not build against /repo"
    exit 2
fi
[ "$1" = build ] && exit 0
"$CARGO_TARGET_DIR/debug/mc" "$@"
rc=$?
case $rc in
0 | 1) exit $rc ;;
134 | 139 | 132 | 136) # abort, segmentation fault, illegal instruction, arithmetic trap inside the code under test
    mkdir -p replays
    printf 'property=%s\ntier=%s\nkey=process died with status %s\n' "$1" "$2" "$rc" >"replays/$1.txt"
    echo "VIOLATION property=$1 replay=/verif/replays/$1.txt"
    exit 1 ;;
*) exit $rc ;;
esac
