#!/bin/bash
# usage: check.sh <property> [--tier quick|thorough] [--replay file] [--section name]
# Rebuilds the view of /repo that the property needs and runs its exploration.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
id="$1"; shift
lc=$(echo "$id" | tr A-Z a-z)
case "$id" in S*|C08) kind=full ;; *) kind=core ;; esac
python3 mk.py $kind || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/build/target" RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
export RUSTFLAGS="--cfg synedrion_verif -Awarnings"
export SYNEDRION_VERIF_SRC="$PWD/harness/$lc.rs"
log="build/$lc.log"
if ! (cd build/$kind && cargo build --release --offline --quiet --features "k256 bip32 dev" --bin mc-$kind) >"$log" 2>&1; then
  echo "error: the harness for $id does not build"; tail -60 "$log"; exit 2
fi
cp -f build/target/release/mc-$kind build/mc-$lc
exec ./build/mc-$lc "$@"
