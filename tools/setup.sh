#!/bin/sh
# Builds the harness once, offline.
cd "$(dirname "$0")/../harness" && unset RUSTFLAGS CARGO_TARGET_DIR && cargo build --offline --bins && cargo build --offline --bins --profile plain
