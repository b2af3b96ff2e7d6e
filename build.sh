#!/bin/bash
# build.sh DIR: builds one simulator twice, as a development and as a shipped build.
cd "$(dirname "$0")/$1" || exit 2
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR NODE_OPTIONS
cargo build --release --workspace --quiet || exit 1
cargo build --profile shipped --workspace --quiet || exit 1
if [ -f js/bundle.cjs ]; then
  node js/bundle.cjs target/release/page.mjs dev || exit 1
  node js/bundle.cjs target/shipped/page.mjs prod || exit 1
fi
