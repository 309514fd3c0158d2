#!/bin/bash
# Builds the simulator against /repo's current working tree (offline).
export HOME=/root PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable RUSTC_BOOTSTRAP=1 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTFLAGS= CARGO_ENCODED_RUSTFLAGS=
unset CARGO_ENCODED_RUSTFLAGS
here="$(cd "$(dirname "$0")" && pwd)"
export RUSTC_WRAPPER="$here/rustc_wrap.sh" CARGO_TARGET_DIR="$here/target"
# build.sh [debug|fast]: one profile, or both
cd "$here/sim" || exit 2
for prof in ${*:-debug fast}; do
  [ "$prof" = debug ] && p=dev || p="$prof"
  cargo build --offline --quiet --profile "$p" || exit 1
done
