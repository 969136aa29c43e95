#!/usr/bin/env bash
# Builds every check binary and warms the instrumented (Miri, ThreadSanitizer) builds.
set -u
cd "$(dirname "$0")"
. ./env.sh
mkdir -p target evidence replays
cargo build --offline --manifest-path harness/Cargo.toml $(awk '$2 != "strat" {print "-p " $2}' checks.map | sort -u) || exit 1
cargo build --offline --manifest-path harness/Cargo.toml -p strat || exit 1 # separately: it enables further features of the library
for p in san san2; do
  (cd harness && RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR=/verif/target/miri cargo miri run --offline -q -p $p -- fem 1 0 >/dev/null 2>&1)
  (cd harness && RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR=/verif/target/tsan RUSTFLAGS=-Zsanitizer=thread cargo build --offline -q -p $p --target x86_64-unknown-linux-gnu -Zbuild-std >/dev/null 2>&1)
done
exit 0
