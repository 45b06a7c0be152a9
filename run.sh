#!/bin/bash
# bash run.sh CNN quick|thorough        run the check of property CNN on /repo's working tree
# bash run.sh CNN --replay FILE         replay one recorded case
# bash run.sh --setup                   build everything once
V=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$V
export CARGO_TARGET_DIR=$V/build/target
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable}
export CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
unset RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_RUSTFLAGS
mkdir -p "$V/build" "$V/evidence" "$V/replays"
cd "$V/checks" || exit 2
python3 "$V/tools/gen.py" || { echo "cannot read the code under test"; exit 2; }
# see held_point in rt/vstd/src/sync.rs
unset VSTD_HELD_POINTS
if grep -rqE '\b(try_lock|try_read|try_write|is_poisoned)\b' "$V/build/pt/src" --include=*.rs; then export VSTD_HELD_POINTS=1; fi
if [ "$1" = --setup ]; then
    exec cargo build --release --offline --bins 2>&1
fi
ID=$1; shift
BIN=$(echo "$ID" | tr A-Z a-z)
if ! cargo build --release --offline --quiet --bin "$BIN" >"$V/build/$BIN.log" 2>&1; then
    tail -40 "$V/build/$BIN.log"
    echo "the check of $ID does not build against this tree"
    exit 2
fi
mkdir -p "$V/build/scratch"
cd "$V/build/scratch" || exit 2
# a search that never ends may also never stop allocating: it is stopped here (status 134), long before the machine runs out
ulimit -v 16000000
"$CARGO_TARGET_DIR/release/$BIN" "$@" 2>"$V/build/$BIN.err"
RC=$?
case $RC in
    0|1) exit $RC ;;
    101|134|139)
        # panicked (while a family was set up), aborted or overflowed its stack inside the code under test
        { echo "property: $ID"; echo "the check process died with status $RC while it executed the code under test"; tail -20 "$V/build/$BIN.err"; } >"$V/replays/$ID-died.txt"
        echo "VIOLATION property=$ID replay=$V/replays/$ID-died.txt"
        exit 1 ;;
    *)
        tail -20 "$V/build/$BIN.err"
        exit 2 ;;
esac
