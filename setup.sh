#!/bin/bash
# Builds everything once: the MIR dumper, the MIR, the explorer. Every check builds again what it needs.
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence
(cd mirdump && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=../build/md cargo +nightly build --offline) || exit 1
(cd harness && RUSTUP_TOOLCHAIN=1.95 CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg verif" CARGO_TARGET_DIR=../build/h cargo build --offline) || exit 1
python3-vt -c 'import z3; print(z3.get_version_string())' || exit 1
