#!/bin/sh
# replay.sh FILE: runs a counterexample (replays/*.in) natively on /repo
cd "$(dirname "$0")" || exit 2
F=$(realpath "$1")
CRATE=$(sed -n 's/^# crate //p' "$F")
H=$(sed -n 's/^# harness //p' "$F")
D=${VERIF_BUILD:-$PWD/.build}/$CRATE-native
[ -f "$CRATE/Cargo.toml" ] || CRATE=$CRATE/native
(cd "$CRATE" && RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=$D cargo build --offline -q --profile replay --features native --bin replay) || exit 2
# (the log of the solver is written in the current folder)
W=$(mktemp -d) && trap 'rm -rf "$W"' EXIT
cd "$W" && "$D/replay/replay" "$H" "$F"
