#!/bin/bash
# dev.sh FEATURE...: builds IR for features; dev.sh run ENTRY [args]
cd /verif/harness
export RUSTUP_TOOLCHAIN=1.83.0 CARGO_TARGET_DIR=/verif/work/ir
mkdir -p /verif/work
if [ "$1" = run ]; then e=$2; shift 2; exec /verif/engine/target/release/rsx /verif/work/dev.ll --entry $e --out /verif/work/dev.out --verbose "$@"; fi
if [ "$1" = nat ]; then shift; cd ../native; CARGO_TARGET_DIR=/verif/work/nat cargo build -q --offline --features "$1" && shift && [ -n "$1" ] && /verif/work/nat/debug/native "$@"; exit; fi
rm -f /verif/work/ir/release/deps/harness*.ll
touch src/lib.rs
cargo rustc -q --offline --release --features "$*" --crate-type cdylib -- --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp -C link-arg=-Wl,--unresolved-symbols=ignore-all && cp /verif/work/ir/release/deps/harness*.ll /verif/work/dev.ll && ls -la /verif/work/dev.ll
