#!/bin/sh
# Offline sanity check of the toolchains; every check builds what it needs by itself.
set -e
cd "$(dirname "$0")"
cargo --version && cargo +nightly --version
mkdir -p evidence build target
exec cargo metadata --offline --format-version 1 --manifest-path harness/Cargo.toml --no-deps > /dev/null
