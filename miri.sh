#!/bin/bash
# Runs vmon in Miri.
cd "$(dirname "$0")" || exit 2
. ./env.sh
export RUSTUP_TOOLCHAIN=nightly MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-preemption-rate=0.1 -Zmiri-seed=${3:-0}"
exec cargo miri run -q --offline --manifest-path harness/Cargo.toml --target-dir target/miri --bin vmon -- "$@"
