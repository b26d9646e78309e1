#!/bin/bash
# build every check once, so later builds only recompile what changed
set -e
here="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR
cd "$here/harness"
cargo build --release --offline --locked --bins
# run.sh builds a plain copy should this one fail
bash "$here/shared/prepare.sh" /repo
cd "$here/shared"
cargo build --release --offline --locked || true
