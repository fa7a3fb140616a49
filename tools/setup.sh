#!/usr/bin/env bash
# Builds the drivers and the command once, so that checks only rebuild what changed.
set -eu
cd "$(dirname "$0")/.."
export RUSTUP_TOOLCHAIN=1.99.1 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER= PATH="/root/.cargo/bin:$PATH"
(cd harness && cargo build --offline --locked)
(cd "${REPO:-/repo}" && cargo build --offline --locked -p oxvg --bin oxvg)
ls -la --time-sort harness/target/debug | head -5
