#!/bin/bash
# Build the simulator and the instrumented application from /repo's working tree. Output under /verif/build.
set -e
cd "$(dirname "$0")/.."
V=$PWD
REPO=${VSIM_REPO:-/repo} # other values only for experiments
OUT=${VSIM_OUT:-$V/build}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true
(cd sim && CARGO_TARGET_DIR=$OUT/sim RUSTFLAGS= cargo build --release --offline -q)
CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true CARGO_TARGET_DIR=$OUT/app CARGO_PROFILE_RELEASE_LTO=false CARGO_PROFILE_RELEASE_CODEGEN_UNITS=16 \
CARGO_PROFILE_RELEASE_OPT_LEVEL=1 CARGO_PROFILE_RELEASE_DEBUG=0 CARGO_PROFILE_RELEASE_PANIC=unwind \
RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-pc-table --cfg vsim -Clink-arg=-Wl,--unresolved-symbols=ignore-all" \
cargo build --release --offline -q --target x86_64-unknown-linux-gnu --manifest-path $REPO/Cargo.toml
