#!/bin/bash
# Builds everything once, to see that the toolchain and the dependencies are there; the checks build again what has changed.
cd "$(dirname "$0")" || exit 2
. ./env.sh
. ./tsan.sh
mkdir -p target evidence
cargo build --offline --manifest-path harness/Cargo.toml --target-dir target/vmon --bin vmon || exit 1
cargo build --offline --manifest-path harness/Cargo.toml --target-dir target/vmon --bin vmon --profile deep || exit 1
cargo build --offline --manifest-path cli/Cargo.toml --target-dir target/cli || exit 1
PYO3_PYTHON=/opt/vp/pyvenv/bin/python3 cargo build --offline --manifest-path pybind/Cargo.toml --target-dir target/pybind || exit 1
tsan_build
